//! harness run PROP --seed S --n N --ms T [--known KF1,KF2]   search for a failing input; prints a JSON report
//! harness replay KIND [--known ..]                           args, one per stdin line, hex encoded; exit 1 if it fails
mod eval;
mod gen;
mod refdec;
#[cfg(feature = "ser")]
mod ser;
use eval::{eval, Bad, Res};
use gen::Rng;
use std::collections::{HashMap, HashSet};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static STEP: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(String, Vec<String>)> = Mutex::new((String::new(), Vec::new()));
static LASTP: Mutex<String> = Mutex::new(String::new());

fn safe(kind: &str, a: &[String]) -> Res {
    *CUR.lock().unwrap() = (kind.to_string(), a.to_vec());
    STEP.fetch_add(1, Ordering::SeqCst);
    match catch_unwind(AssertUnwindSafe(|| eval(kind, a))) { Ok(r) => r, Err(_) => Err(Bad { msg: format!("panics: {}", LASTP.lock().unwrap()), kf: None }) }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
fn clip(s: &str) -> String { let mut t: String = s.chars().take(1500).collect(); if t.len() < s.len() { t += "…"; } t }

fn sel(r: &mut Rng, f: &[&str]) -> String { r.s(f) }
/// one case for a property
fn case(p: &str, i: usize, r: &mut Rng) -> (&'static str, Vec<String>) {
    match p {
        "C01" => match r.n(6) {
            0 => ("panic", vec![gen::attr(r, 20)]),
            1 => { let t = gen::session(r, 10); let t = gen::mutate(r, &t); ("panic", vec![t]) }
            2 => { let k = gen::attr(r, 25); let t = gen::mutate(r, &k); ("panic", vec![gen::wrap(&format!("a={t}"), r.p(50))]) }
            3 => { let t = gen::line(r, 30); let t = if r.p(50) { gen::mutate(r, &t) } else { t }; ("panic", vec![gen::wrap(&t, r.p(50))]) }
            4 => { let k = r.n(200); let t: String = (0..k).map(|_| *r.pick(&['v', 'o', '=', ' ', '\n', '\r', '0', '1', '-', 'a', 'm', ':', 'é', '\0', 's', 't', 'c', '/', '[', ']'])).collect(); ("panic", vec![t]) }
            _ => ("panic", vec![gen::session(r, 15)]),
        },
        "C02" => ("structure", vec![gen::session(r, if i % 3 == 0 { 0 } else { 6 })]),
        "C03" => match r.n(3) { 0 => ("levels", vec![gen::session(r, 8)]), _ => { let names = gen::attr_names(); let n = names[i % names.len()]; let t = if i < names.len() { eval::sample(n) } else { gen::attr_of(r, n, 0) }; ("level", vec![t]) } },
        "C04" => {
            let k = i % (eval::RANGES.len() + 7);
            if k < eval::RANGES.len() { let (t, max, _) = eval::RANGES[k]; let n = if t.starts_with("m=") && max == 127 && r.p(50) { if r.p(60) { r.n(300).to_string() } else { gen::ptnum(r, 50) } } else { let b = if r.p(50) { 0 } else { 100 }; gen::num(r, max, b) }; ("range", vec![t.into(), n.trim().to_string()]) }
            else if k == eval::RANGES.len() { ("range", vec!["framerate".into(), sel(r, &["0", "-0", "-1", "-25", "nan", "inf", "-inf", "infinity", "1e999", "-1e999", "25", "0.5", "1e-400", "1e-300", "-0.001", "1e308", "29.97", "0.0", "NaN", "+5", "5.", ".5", "", "x"])]) }
            else if k == eval::RANGES.len() + 1 { ("range", vec!["plid".into(), match r.n(4) { 0 => sel(r, &["0", "ffffff", "FFFFFF", "1000000", "1FFFFFF", "01000000", "00ffffff", "42e01f", "ffffffff", "100000000", "g", "", "142e01f"]), 1 => format!("{:x}", r.u() % 0x2000000), 2 => format!("{:06X}", r.u() % 0x1000000), _ => format!("{:x}", r.u() >> 28) }]) }
            else { let h = ["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"][k - eval::RANGES.len() - 2]; let n = if r.p(30) { *r.pick(&[20, 28, 32, 48, 64]) } else { 1 + r.n(66) }; ("range", vec![format!("fp:{h}"), n.to_string()]) }
        }
        "C05" => ("layout", vec![gen::session(r, if i % 2 == 0 { 0 } else { 5 })]),
        "C06" => ("policy", vec![gen::policy(r)]),
        "C08" => { let names = gen::attr_names(); let n = names[i % names.len()]; let b = *r.pick(&[0, 0, 5, 15]); let n = if r.p(25) { *r.pick(&["fmtp", "imageattr", "candidate", "rid", "simulcast", "rtcp-fb"]) } else { n }; let t = if r.p(3) { gen::attr(r, 30) } else { gen::attr_of(r, n, b) }; let t = if r.p(10) { gen::mutate(r, &t) } else { t }; ("attr", vec![t.trim().to_string()]) }
        "C09" => { let names = gen::attr_names(); let n = names[i % names.len()]; let n = if r.p(35) { *r.pick(&["fmtp", "imageattr", "candidate", "rid", "simulcast", "rtcp-fb", "ssrc", "extmap"]) } else { n }; let t = gen::attr_of(r, n, 1); let t = if r.p(8) { gen::mutate(r, &t) } else { t }; ("rt", vec![t]) }
        "C10" => ("sessrt", vec![gen::session(r, if i % 4 == 0 { 3 } else { 0 })]),
        "C11" => ("maskseq", gen::maskops(r, i)),
        "C12" => { let k = r.n(3); let mut v = vec![gen::session(r, 0)]; for _ in 0..k { v.push(gen::session(r, 0)); } ("mask", v) }
        "C13" => ("edit", gen::edits(r)),
        "C14" => if i % 2 == 0 { let (f, a) = gen::fam_addr(r, 12); let a = if r.p(30) { gen::addr(r) } else { a }; ("family", vec![gen::place(r), f, a]) } else { ("equal", gen::equals(r)) },
        "C15" => gen::keyword(r, i),
        "C17" => { let t = match r.n(6) { 0 => gen::policy(r), 1 => { let x = gen::line(r, 20); gen::wrap(&x, r.p(70)) } 2 => { let x = gen::attr(r, 3); gen::wrap(&format!("a={x}"), r.p(70)) } 3 => gen::session(r, 10), _ => gen::session(r, 0) }; ("ser", vec![t, sel(r, &["lenient", "lenient", "strict"])]) }
        _ => { let t = gen::line(r, if i % 2 == 0 { 0 } else { 12 }); let t = if t.starts_with("a=") || t.starts_with("A=") { format!("m={}", gen::media(r, 5)) } else { t }; let t = if r.p(10) { gen::mutate(r, &t) } else { t }; if r.p(1) || !t.trim_start().to_lowercase().starts_with('a') { ("line", vec![t]) } else { ("line", vec![format!("o={}", gen::origin(r, 5))]) } }
    }
}

fn shrink(kind: &str, a: &[String]) -> (Vec<String>, String) {
    let fails = |c: &[String]| -> Option<String> { match safe(kind, c) { Err(b) if b.kf.is_none() => Some(b.msg), _ => None } };
    let mut cur = a.to_vec();
    let mut msg = fails(&cur).unwrap_or_default();
    let end = Instant::now() + Duration::from_secs(6);
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut i = 0;
        while i < cur.len() && ["maskseq", "edit", "equal", "mask"].contains(&kind) && cur.len() > 1 && Instant::now() < end {
            let mut c = cur.clone(); c.remove(i);
            if let Some(m) = fails(&c) { cur = c; msg = m; progress = true; } else { i += 1; }
        }
        if ["kw", "range", "family"].contains(&kind) { break; }
        for k in 0..cur.len() {
            for seps in ["\n", " ", ";", ""] {
                let split = |s: &str| -> Vec<String> { if seps.is_empty() { s.chars().map(|c| c.to_string()).collect() } else { s.split_inclusive(seps).map(|x| x.to_string()).collect() } };
                let parts = split(&cur[k]);
                if seps.is_empty() && parts.len() > 400 { continue; }
                let mut n = parts.len(); let mut chunk = (n / 2).max(1);
                let mut parts = parts;
                loop {
                    let mut i = 0;
                    while i < parts.len() && Instant::now() < end {
                        let mut p = parts.clone(); let e = (i + chunk).min(p.len()); p.drain(i..e);
                        let mut c = cur.clone(); c[k] = p.concat();
                        if let Some(m) = fails(&c) { cur = c; parts = p; msg = m; progress = true; } else { i += chunk; }
                    }
                    if chunk == 1 || Instant::now() >= end { break; }
                    n = parts.len(); chunk = (chunk / 2).min(n.max(1)).max(1);
                }
            }
        }
    }
    (cur, msg)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let known: HashSet<String> = opt("--known").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    std::panic::set_hook(Box::new(|i| { *LASTP.lock().unwrap() = i.to_string().replace('\n', " "); }));
    // a case that runs for 10 s is reported as a hang
    std::thread::spawn(|| { let mut last = (u64::MAX, Instant::now()); loop { std::thread::sleep(Duration::from_millis(200)); let s = STEP.load(Ordering::SeqCst); if s != last.0 { last = (s, Instant::now()); } else if s > 0 && last.1.elapsed() > Duration::from_secs(10) { let c = CUR.lock().unwrap().clone(); println!("{{\"evaluations\":{s},\"distinct_nontrivial\":0,\"samples\":[],\"known\":[],\"violation\":{{\"kind\":{},\"args\":{},\"msg\":\"does not return within 10 s\"}}}}", js(&c.0), jl(&c.1)); std::process::exit(1); } } });
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    match a[1].as_str() {
        "literals" => gen::print_literals(),
        "run" => {
            let p = a[2].clone();
            let n: usize = opt("--n").and_then(|s| s.parse().ok()).unwrap_or(20000);
            let ms: u64 = opt("--ms").and_then(|s| s.parse().ok()).unwrap_or(10000);
            let start = Instant::now();
            let mut r = Rng::new(seed.wrapping_mul(1000003).wrapping_add(p.bytes().fold(0u64, |a, c| a * 31 + c as u64)));
            let (mut evals, mut hits) = (0usize, HashSet::new());
            let mut samples: Vec<String> = vec![];
            let mut kfs: HashMap<String, (String, Vec<String>, String)> = HashMap::new();
            let mut viol = None;
            let fixed = gen::fixed(&p);
            for i in 0..n + fixed.len() {
                if i >= fixed.len() + 200 && start.elapsed() > Duration::from_millis(ms) { break; }
                let (kind, args) = if i < fixed.len() { fixed[i].clone() } else { case(&p, i - fixed.len(), &mut r) };
                evals += 1;
                match safe(kind, &args) {
                    Ok(t) => if t { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (kind, &args).hash(&mut h); if hits.insert(h.finish()) && samples.len() < 4 && i % 7 == 0 { samples.push(format!("{{\"kind\":{},\"args\":{}}}", js(kind), jl(&args.iter().map(|s| clip(s)).collect::<Vec<_>>()))); } },
                    Err(Bad { msg, kf: Some(k) }) if known.contains(k) => { kfs.entry(k.to_string()).or_insert((kind.to_string(), args, msg)); }
                    Err(_) => { let (c, m) = shrink(kind, &args); viol = Some((kind, c, m)); break; }
                }
            }
            STEP.store(0, Ordering::SeqCst);
            let kj: Vec<String> = kfs.iter().map(|(k, v)| format!("{{\"id\":{},\"kind\":{},\"args\":{},\"msg\":{}}}", js(k), js(&v.0), jl(&v.1), js(&clip(&v.2)))).collect();
            let vj = match &viol { None => "null".to_string(), Some((k, c, m)) => format!("{{\"kind\":{},\"args\":{},\"msg\":{}}}", js(k), jl(c), js(&clip(m))) };
            println!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{},\"samples\":[{}],\"known\":[{}],\"violation\":{vj}}}", hits.len(), samples.join(","), kj.join(","));
            std::process::exit(if viol.is_some() { 1 } else { 0 });
        }
        "replay" => {
            let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
            let args: Vec<String> = s.lines().map(|l| String::from_utf8((0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()).collect();
            match safe(&a[2], &args) {
                Err(b) if b.kf.map_or(true, |k| !known.contains(k)) => { println!("{}", b.msg); std::process::exit(1); }
                Err(b) => { println!("known finding {}: {}", b.kf.unwrap(), b.msg); }
                Ok(_) => println!("holds"),
            }
        }
        "sample" => { let mut r = Rng::new(seed); for i in 0..10 { let (k, c) = case(&a[2], i, &mut r); println!("{k} {c:?}"); } }
        _ => std::process::exit(2),
    }
}
