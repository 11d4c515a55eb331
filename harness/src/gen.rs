//! Seeded generators of line texts: grammar based, boundary values, optional parts in every combination and order, and mutations.
use crate::refdec::{FLAGS, MEDIA, PROTO, VALUED};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03) }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let k = self.n(s.len()); &s[k] }
    pub fn s(&mut self, s: &[&str]) -> String { self.pick(s).to_string() }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); } }
}

// ---- literals of the source under test that its pinned version (dict.txt) does not have: conditions on particular values show up as new literals
fn literals() -> (Vec<String>, Vec<u64>) {
    let dir = format!("{}/src", std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into()));
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "rs") && !p.to_string_lossy().ends_with("_tests.rs")).collect()).unwrap_or_default();
    files.sort();
    let (mut st, mut nu) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    for f in files {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let l = l.split("//").next().unwrap_or("");
            for (i, p) in l.split(['"', '\'']).enumerate() { if i % 2 == 1 && !p.is_empty() && p.len() <= 20 && !p.contains(|c: char| c.is_whitespace() || c == '\\' || c == '{') { st.insert(p.to_string()); } }
            for t in l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                let t = t.replace('_', ""); let t = ["u8", "u16", "u32", "u64", "usize", "u128"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t).to_string();
                if let Some(n) = t.strip_prefix("0x").map_or_else(|| t.parse::<u64>().ok(), |h| u64::from_str_radix(h, 16).ok()) { nu.insert(n); }
            }
        }
    }
    (st.into_iter().collect(), nu.into_iter().collect())
}
pub fn print_literals() { let (s, n) = literals(); for x in s { println!("s {x}"); } for x in n { println!("n {x}"); } }
fn novel() -> &'static (Vec<String>, Vec<u64>) {
    static D: std::sync::OnceLock<(Vec<String>, Vec<u64>)> = std::sync::OnceLock::new();
    D.get_or_init(|| { let base: std::collections::HashSet<&str> = include_str!("../dict.txt").lines().collect(); let (s, n) = literals(); (s.into_iter().filter(|x| !base.contains(format!("s {x}").as_str())).collect(), n.into_iter().filter(|x| !base.contains(format!("n {x}").as_str())).collect()) })
}
fn novel_str(r: &mut Rng) -> Option<String> {
    let d = &novel().0; if d.is_empty() || !r.p(8) { return None; }
    let x = r.pick(d).clone();
    Some(match r.n(4) { 0 => format!("{}{x}", (b'a' + r.n(26) as u8) as char), 1 => format!("{x}{}", (b'a' + r.n(26) as u8) as char), 2 => format!("{}{x}{}", r.n(10), r.n(10)), _ => x })
}
/// a number text for a field with this maximum; bad: percentage of values outside or malformed
pub fn num(r: &mut Rng, max: u64, bad: usize) -> String {
    if !novel().1.is_empty() && r.p(8) { let v = r.pick(&novel().1).saturating_add(r.n(3) as u64).saturating_sub(1); if v <= max { return v.to_string(); } }
    if r.p(bad) {
        let m = max as u128;
        match r.n(14) {
            0 | 1 | 2 => (m + 1).to_string(), 3 => (m + 2).to_string(), 4 => (m * 2 + 2).to_string(),
            5 => r.s(&["65536", "65537", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "256", "257", "10000000000", "9999999999", "99999999999999999999999999999999999999999999"]),
            6 => "-1".into(), 7 => "-0".into(), 8 => r.s(&["", "x", "1x", "x1", "0x1", "1.0", "1e3", "++1", "+", "-", "1 ", "١", "½"]),
            9 => (m + 1 + (r.u() % 1000) as u128).to_string(), 10 => (((1u128) << 32) + (r.u() % 70000) as u128).to_string(), 11 => (((1u128) << 64) + (r.u() % 70000) as u128).to_string(),
            12 => (((1u128) << 16) + (r.u() % 70000) as u128).to_string(), _ => (((1u128) << 8) + (r.u() % 300) as u128).to_string(),
        }
    } else {
        let v = match r.n(12) { 0 | 1 => 0, 2 => 1, 3 | 4 => max, 5 => max.saturating_sub(1), 6 => max / 2, 7 => max / 10, 8 => r.u() % 10, 9 => r.u() % 300, _ => if max == u64::MAX { r.u() } else { r.u() % (max + 1) } };
        let v = v.min(max);
        match r.n(20) { 0 => format!("0{v}"), 1 => format!("+{v}"), 2 => format!("0000000000000000000000000{v}"), _ => v.to_string() }
    }
}
pub fn case(r: &mut Rng, s: &str) -> String {
    match r.n(6) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), 2 => s.chars().map(|c| if r.p(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => s.to_string() }
}
pub fn word(r: &mut Rng) -> String {
    if let Some(x) = novel_str(r) { return x; }
    if !novel().1.is_empty() && r.p(2) { let n = *r.pick(&novel().1); if n < 400 { return (0..n as usize + r.n(3)).map(|_| (b'a' + r.n(26) as u8) as char).collect::<String>() + "z"; } }
    match r.n(16) {
        0 => r.s(&["0", "1", "-", "_", "~", "*", "a:b", "a=b", "a;b", "a,b", "a/b", "é", "日本", "𝒳y", "ſ", "İ", "rid", "pt=1", "x=", "=x", "~~a", "[", "]", "{}", "%20", "\"q\"", "{1-2}", "cname", "sha-1", "typ", "raddr", "a\u{1}b", "a:b:c", "::", ":"]),
        1 => (r.u() % 100000).to_string(),
        _ => { let k = 1 + r.n(8); (0..k).map(|_| *r.pick(&b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[..]) as char).collect() }
    }
}
pub fn host(r: &mut Rng) -> String {
    if let Some(x) = novel_str(r) { return x; }
    match r.n(12) {
        0 => "example.com".into(), 1 => "Example.COM".into(), 2 => "localhost".into(), 3 => r.s(&["a", "host-1.Example.org", "8f9c1e9a-1234.local", "bücher.example", "xn--bcher-kva.example", "stun.l.google.com"]),
        4 => r.s(&["a b", "", "[::1]", "a/b", "%41.com", "exa mple", "1.2.3", "256.1.1.1", "1.2.3.4.5", "0x7f.1", "::g", "1::2::3", ":", "a:1", "a%b", "[::1", "example.com:80", "[1:2:3:4:5:6:7:8]", "fe80::1%eth0", "127.1"]),
        _ => { let k = 1 + r.n(6); let n: String = (0..k).map(|_| *r.pick(&b"abcdefghijklmnopqrstuvwxyz"[..]) as char).collect(); format!("{}.{}", n, r.s(&["com", "org", "local", "net"])) }
    }
}
pub fn ip4(r: &mut Rng) -> String { match r.n(6) { 0 => "0.0.0.0".into(), 1 => "127.0.0.1".into(), 2 => "255.255.255.255".into(), _ => format!("{}.{}.{}.{}", r.n(256), r.n(256), r.n(256), r.n(256)) } }
pub fn ip6(r: &mut Rng) -> String {
    match r.n(8) { 0 => "::".into(), 1 => "::1".into(), 2 => "fe80::abcd".into(), 3 => "::ffff:1.2.3.4".into(), 4 => "2001:DB8::A".into(), 5 => "1:2:3:4:5:6:7:8".into(), _ => (0..8).map(|_| format!("{:x}", r.n(65536))).collect::<Vec<_>>().join(":") }
}
pub fn addr(r: &mut Rng) -> String { match r.n(5) { 0 | 1 => ip4(r), 2 | 3 => ip6(r), _ => host(r) } }
/// family and address, mostly agreeing
pub fn fam_addr(r: &mut Rng, bad: usize) -> (String, String) {
    let v4 = r.p(50);
    let f = if r.p(bad) { r.s(&["IP5", "IP", "ip", "IPV4", "4", "IP44", "ＩＰ4"]) } else { let f = if v4 { "IP4" } else { "IP6" }; case(r, f) };
    let a = match r.n(10) { 0..=2 => host(r), 3 if r.p(bad * 3) => if v4 { ip6(r) } else { ip4(r) }, _ => if v4 { ip4(r) } else { ip6(r) } };
    (f, a)
}
/// where an address can stand, with the rest of its line
pub fn place(r: &mut Rng) -> String {
    match r.n(6) {
        0 => "o".into(), 1 => "c".into(), 2 => "rtcp".into(),
        3 => format!("o:{} {} {}", word(r), num(r, u64::MAX, 0), num(r, u64::MAX, 0)),
        4 => { let t = num(r, 255, 0); if r.p(50) { format!("c:/{t}") } else { format!("c:/{t}/{}", num(r, U32, 0)) } }
        _ => format!("rtcp:{}", num(r, 65535, 0)),
    }
}
fn net(r: &mut Rng, bad: usize) -> String { if r.p(bad) { r.s(&["OUT", "I", "INN", "1N"]) } else { case(r, "IN") } }
pub fn sp(r: &mut Rng) -> String { match r.n(30) { 0 => "  ".into(), 1 => "\t".into(), 2 => "\u{a0}".into(), 3 => " \u{3000}".into(), _ => " ".into() } }
pub fn sps(r: &mut Rng, t: Vec<String>) -> String { let mut o = String::new(); for (i, x) in t.iter().enumerate() { if i > 0 { o += &sp(r); } o += x; } o }
fn join1(t: Vec<String>) -> String { t.join(" ") }
fn flo(r: &mut Rng) -> String {
    match r.n(12) { 0 => r.s(&["0", "1", "0.1", "1.0", "9.9999", "nan", "inf", "-1", "1e3", "infinity", "-inf", "NaN", "1e40", "1e-50", "", "x", ".5", "5.", "-0", "0.0", "1e400", "+1.5"]), 1 => format!("{}", r.n(100)), _ => format!("{}.{}", r.n(10), r.n(10000)) }
}
fn two_asc(r: &mut Rng) -> (String, String) { let a = r.n(900); let b = a + 1 + r.n(90); (format!("{}.{}", a / 100, a % 100 + 100), format!("{}.{}", b / 100 + 1, b % 100 + 100)) }

pub fn attr_names() -> Vec<&'static str> { FLAGS.iter().map(|f| f.0).chain(VALUED.iter().copied()).collect() }

const U32: u64 = u32::MAX as u64;
pub fn fmtp_param(r: &mut Rng, bad: usize) -> String {
    let k = r.n(26);
    let b = |r: &mut Rng| if r.p(bad) { num(r, 1, 100) } else { r.s(&["0", "1", "1", "01", "+1"]) };
    let (n, v) = match k {
        0 => ("profile-level-id", if r.p(bad) { r.s(&["1000000", "ffffffff", "100000000", "g", "", "-1", "1ffffff"]) } else { match r.n(6) { 0 => "ffffff".into(), 1 => "42000a".into(), 2 => "0".into(), 3 => "42E01F".into(), 4 => "00000042000b".into(), _ => format!("{:x}", r.n(0x1000000)) } }),
        1 => ("packetization-mode", num(r, 2, bad)), 2 => ("level-asymmetry-allowed", b(r)), 3 => ("max-mbps", num(r, U32, bad)), 4 => ("max-fs", num(r, U32, bad)), 5 => ("max-cpb", num(r, U32, bad)),
        6 => ("max-dpb", num(r, U32, bad)), 7 => ("max-br", num(r, U32, bad)), 8 => ("max-fr", num(r, U32, bad)), 9 => ("profile", num(r, 2, bad)), 10 => ("level-idx", num(r, 31, bad)), 11 => ("tier", num(r, 1, bad)),
        12 => ("maxplaybackrate", if r.p(20) { "48000".into() } else { num(r, U32, bad) }), 13 => ("maxaveragebitrate", num(r, U32, bad)), 14 => ("ptime", num(r, U32, bad)), 15 => ("maxptime", num(r, U32, bad)), 16 => ("minptime", num(r, U32, bad)),
        17 => ("usedtx", b(r)), 18 => ("stereo", b(r)), 19 => ("useinbandfec", b(r)), 20 => ("cbr", b(r)), 21 => ("apt", num(r, 255, bad)), 22 => return format!("apt={};rtx-time={}", num(r, 255, bad), num(r, U32, bad)),
        23 => ("rtx-time", num(r, U32, bad)),
        _ => return format!("{}={}", r.s(&["x-foo", "sprop-parameter-sets", "foo", "A", "b c", "profil", "maxfs", "maxptimes", "é", " max-fs", "max-fs ", ""]), word(r)),
    };
    format!("{}={}", case(r, n), v)
}
pub fn fmtp(r: &mut Rng, bad: usize) -> String {
    let pt = num(r, 255, bad);
    let v = match r.n(10) {
        0 => { let k = 2 + r.n(3); (0..k).map(|_| num(r, 128, bad)).collect::<Vec<_>>().join("/") }
        1 => { let k = 1 + r.n(4); (0..k).map(|_| if r.p(50) { num(r, 100, bad) } else { let a = r.n(100); let b = if r.p(bad) { a } else { a + 1 + r.n(100 - a) }; format!("{a}-{b}") }).collect::<Vec<_>>().join(",") }
        2 => r.s(&["0-15", "100", "101", "0-100", "0-101", "5-5", "6-5", "0-15,66,70", "a", "1-2-3", "1,", ",", "-", "0-15 x", "1;2"]),
        _ => {
            let k = 1 + if r.p(70) { r.n(3) } else { r.n(12) };
            let mut v: Vec<String> = (0..k).map(|_| fmtp_param(r, bad)).collect();
            if r.p(10) { v.insert(0, String::new()); } if r.p(10) { v.push(String::new()); } if r.p(5) { v.push("junk".into()); }
            v.join(if r.p(5) { "; " } else { ";" })
        }
    };
    format!("{pt} {v}")
}
fn xy(r: &mut Rng, bad: usize) -> String {
    match r.n(4) {
        0 => num(r, U32, bad), 1 => format!("[{}:{}]", num(r, U32, bad), num(r, U32, bad)), 2 => format!("[{}:{}:{}]", num(r, U32, bad), num(r, U32, bad), num(r, U32, bad)),
        _ => { let k = if r.p(bad) { r.n(2) } else { 2 + r.n(3) }; format!("[{}]", (0..k).map(|_| num(r, U32, bad)).collect::<Vec<_>>().join(",")) }
    }
}
fn iset(r: &mut Rng, bad: usize) -> String {
    let mut t = vec![format!("x={}", xy(r, bad)), format!("y={}", xy(r, bad))];
    if r.p(bad / 2) { t.swap(0, 1); } if r.p(bad / 2) { t.pop(); }
    let mut o = vec![];
    if r.p(40) { o.push(match r.n(4) { 0 => format!("sar={}", flo(r)), 1 => { let (a, b) = two_asc(r); format!("sar=[{a}-{b}]") } 2 => { let (a, b) = two_asc(r); if r.p(50) { format!("sar=[{a},{b}]") } else { format!("sar=[0.05,{a},{b}]") } } _ => if r.p(bad) { format!("sar=[{}{}{}]", flo(r), r.s(&["-", ",", "", ",2.0,"]), flo(r)) } else { "sar=1.5".into() } }); }
    if r.p(40) { o.push(if r.p(bad) { format!("par=[{}-{}]", flo(r), flo(r)) } else { let (a, b) = two_asc(r); format!("par=[{a}-{b}]") }); }
    if r.p(40) { o.push(format!("q={}", flo(r))); }
    if r.p(10) { o.push(r.s(&["foo=1", "foo=[1,2]", "z", "sar", "qq=1"])); }
    r.shuffle(&mut o);
    t.extend(o);
    format!("[{}]", t.join(","))
}
fn ilist(r: &mut Rng, bad: usize) -> String { if r.p(20) { "*".into() } else { let k = 1 + r.n(3); (0..k).map(|_| iset(r, bad)).collect::<Vec<_>>().join(" ") } }
fn simver(r: &mut Rng) -> String {
    let k = 1 + r.n(3);
    let s = (0..k).map(|_| { let j = 1 + r.n(3); (0..j).map(|_| format!("{}{}", if r.p(30) { "~" } else { "" }, if r.p(5) { String::new() } else { word(r).replace(|c: char| c.is_whitespace(), "") })).collect::<Vec<_>>().join(",") }).collect::<Vec<_>>().join(";");
    if r.p(30) { format!("rid={s}") } else { s }
}
pub fn rid_param(r: &mut Rng, bad: usize) -> String {
    let n = r.s(&["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps", "depends", "max-bpp", "foo", "Max-Fs", ""]);
    match n.as_str() { "depends" => { let k = 1 + r.n(3); format!("depends={}", (0..k).map(|_| if r.p(8) { String::new() } else { word(r).replace(';', "") }).collect::<Vec<_>>().join(",")) } "max-bpp" | "foo" | "Max-Fs" | "" => format!("{n}={}", word(r).replace(';', "")), _ => if r.p(bad / 2) { n } else { format!("{n}={}", num(r, U32, bad)) } }
}
fn kw(r: &mut Rng, list: &[&str], ci: bool, bad: usize) -> String { if r.p(bad) { r.s(&["xyz", "", "hos", "hostt", "activ", "SEND", "sha-2", "bundle2", "ack2"]) } else { let s = r.s(list); if ci { case(r, &s) } else { s } } }
fn hexbytes(r: &mut Rng, n: usize, bad: usize) -> String {
    let n = if r.p(bad) { match r.n(3) { 0 => n - 1, 1 => n + 1, _ => r.n(70) } } else { n };
    let style = r.n(3);
    let mut v: Vec<String> = (0..n).map(|_| { let b = r.n(256); match style { 0 => format!("{b:02X}"), 1 => format!("{b:02x}"), _ => { let s = format!("{b:02X}"); if r.p(50) { s.to_lowercase() } else { s } } } }).collect();
    if r.p(bad) && !v.is_empty() { let k = r.n(v.len()); v[k] = r.s(&["1", "123", "GG", "", "é", "-1", "0x", "1 "]); }
    v.join(":")
}
/// the value of one attribute (empty for flags)
pub fn value(r: &mut Rng, name: &str, bad: usize) -> String {
    match name {
        "candidate" => {
            let mut t = vec![word(r).replace(|c: char| c.is_whitespace(), ""), num(r, U32, bad), kw(r, &["UDP", "TCP"], true, bad), num(r, u64::MAX, bad), addr(r), num(r, 65535, bad), if r.p(bad) { "typo".into() } else { case(r, "typ") }, kw(r, &["host", "srflx", "prflx", "relay"], true, bad)];
            let mut e: Vec<Vec<String>> = vec![];
            if r.p(50) { let n = case(r, "raddr"); e.push(vec![n, addr(r)]); } if r.p(50) { let n = case(r, "rport"); e.push(vec![n, num(r, 65535, bad)]); } if r.p(40) { let n = case(r, "tcptype"); e.push(vec![n, kw(r, &["active", "passive", "so"], true, bad)]); }
            if r.p(40) { let n = case(r, "generation"); e.push(vec![n, num(r, U32, bad)]); } if r.p(40) { let n = case(r, "ufrag"); e.push(vec![n, word(r)]); } if r.p(40) { let n = case(r, "network-cost"); e.push(vec![n, num(r, U32, bad)]); }
            let k = if r.p(30) { 1 + r.n(3) } else { 0 };
            for _ in 0..k { e.push(vec![word(r), word(r)]); }
            if r.p(8) { let n = r.s(&["ufrag", "generation", "rport"]); e.push(vec![n, (r.u() % 1000).to_string()]); }
            if r.p(60) { r.shuffle(&mut e); }
            t.extend(e.into_iter().flatten());
            if r.p(bad) { let k = r.n(t.len()); t.remove(k); }
            sps(r, t)
        }
        "dtls-message" => format!("{}{}{}", kw(r, &["client", "server"], false, bad), if r.p(bad) { "  " } else { " " }, r.s(&["abc=", "MTIzNDU2Nzg5MA==", "x+/"])),
        "extmap" => {
            let mut t = vec![if r.p(50) { num(r, 65535, bad) } else { format!("{}/{}", num(r, 65535, bad), kw(r, &["sendonly", "recvonly", "sendrecv"], true, bad)) }, r.s(&["urn:ietf:params:rtp-hdrext:sdes:mid", "http://a/b", "x", "urn:x:é"])];
            let k = if r.p(60) { 0 } else { 1 + r.n(3) }; for _ in 0..k { t.push(word(r)); } if r.p(bad) { t.push("a\0b".into()); } if r.p(bad) { t.truncate(1); }
            sps(r, t)
        }
        "fingerprint" => { let (h, n) = *r.pick(&[("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)]); let n2 = if r.p(bad) { *r.pick(&[20, 28, 32, 48, 64]) } else { n }; let mut t = vec![if r.p(bad) { r.s(&["md5", "sha256", "SHA-256", "sha-2"]) } else { h.into() }, hexbytes(r, n2, bad)]; if r.p(bad / 2) { t.push("x".into()); } sps(r, t) }
        "fmtp" => fmtp(r, bad),
        "framerate" => if r.p(bad) { flo(r) } else { r.s(&["25", "0.5", "29.97", "1e3", "1e300", "5.", ".5", "30.000", "1e-300", "123456789.123"]) },
        "group" => { let mut t = vec![kw(r, &["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"], true, bad)]; let k = r.n(5); for _ in 0..k { t.push(word(r)); } sps(r, t) }
        "ice-options" => { let k = 1 + r.n(3); let t = (0..k).map(|_| word(r)).collect(); sps(r, t) }
        "ice-pacing" => num(r, 9_999_999_999, bad),
        "ice-pwd" | "ice-ufrag" | "identity" | "label" | "mid" => { let w = word(r); if r.p(20) { format!("{w} {}", word(r)) } else if r.p(bad) { String::new() } else { w } }
        "imageattr" => {
            let p = if r.p(30) { "*".into() } else { num(r, 255, bad) }; let (a, b) = if r.p(50) { ("send", "recv") } else { ("recv", "send") };
            let mut s = format!("{p} {a} {}", ilist(r, bad));
            if r.p(50) { s += &format!(" {} {}", if r.p(bad) { a } else { b }, ilist(r, bad)); }
            if r.p(bad / 2) { s += " x"; }
            s
        }
        "max-message-size" | "maxptime" | "ptime" => num(r, u64::MAX, bad),
        "msid" => { let mut t = vec![word(r)]; if r.p(60) { t.push(word(r)); } if r.p(5) { t.push(word(r)); } sps(r, t) }
        "msid-semantic" => { let mut t = vec![r.s(&["WMS", "wms", "x"])]; let k = r.n(4); for _ in 0..k { t.push(if r.p(20) { "*".into() } else { word(r) }); } sps(r, t) }
        "rid" => {
            let mut s = format!("{} {}", word(r), kw(r, &["send", "recv"], false, bad));
            if r.p(70) {
                let mut t = vec![];
                if r.p(50) { let k = 1 + r.n(3); t.push(format!("pt={}", (0..k).map(|_| num(r, 65535, bad)).collect::<Vec<_>>().join(","))); }
                let k = if t.is_empty() { 1 } else { 0 } + r.n(4); for _ in 0..k { t.push(rid_param(r, bad)); }
                if r.p(bad) { r.shuffle(&mut t); }
                s += " "; s += &t.join(";");
            }
            s
        }
        "remote-candidates" => { let mut t = vec![num(r, U32, bad), addr(r), num(r, 65535, bad)]; if r.p(bad) { t.truncate(2); } if r.p(5) { t.extend([word(r), word(r)]); } sps(r, t) }
        "rtpmap" => { let mut p = vec![r.s(&["opus", "VP8", "H264", "telephone-event", "", "é"]), num(r, U32, bad)]; if r.p(50) { p.push(num(r, U32, bad)); } if r.p(bad) { p.truncate(1); } let mut t = vec![num(r, 127, bad), p.join("/")]; if r.p(bad) { t.truncate(1); } sps(r, t) }
        "rtcp" => { let mut t = vec![num(r, 65535, bad)]; if r.p(70) { let (f, a) = fam_addr(r, bad); t.extend([net(r, bad), f, a]); } if r.p(bad) { let k = 1 + r.n(4); t.truncate(k); } sps(r, t) }
        "rtcp-fb" => {
            let p = if r.p(30) { "*".into() } else { num(r, 255, bad) };
            let mut t = vec![p];
            match r.n(8) { 0 => { t.push("ack".into()); t.push(kw(r, &["rpsi", "app"], false, bad)); } 1 | 2 => { t.push("ccm".into()); if r.p(80) { t.push(kw(r, &["fir", "tmmbr", "tstr", "vbcm"], false, bad)); } } 3 | 4 => { t.push("nack".into()); if r.p(80) { t.push(kw(r, &["sli", "pli", "rpsi", "app"], false, bad)); } }
                5 => { t.push("trr-int".into()); t.push(num(r, U32, bad)); } 6 => t.push("goog-remb".into()), _ => t.push(kw(r, &["transport-cc"], false, bad)) }
            if t.len() == 3 && r.p(40) { t.push(word(r)); if r.p(30) { t.push(word(r)); } }
            if r.p(bad) { let k = 1 + r.n(3); t.truncate(k); }
            join1(t)
        }
        "sctpmap" => { let mut t = vec![num(r, 65535, bad), if r.p(bad) { "webrtc".into() } else { case(r, "webrtc-datachannel") }, num(r, U32, bad)]; if r.p(bad) { t.pop(); } if r.p(bad / 2) { t.push("1".into()); } sps(r, t) }
        "sctp-port" => num(r, 65535, bad),
        "setup" => kw(r, &["active", "actpass", "holdconn", "passive"], true, bad),
        "simulcast" => { let (a, b) = if r.p(50) { ("send", "recv") } else { ("recv", "send") }; let mut t = vec![a.to_string(), simver(r)]; if r.p(50) { t.push(if r.p(bad) { a.into() } else { b.into() }); t.push(simver(r)); } if r.p(bad) { t.pop(); } sps(r, t) }
        "ssrc" => { let mut s = num(r, U32, bad); if r.p(80) { s += " "; s += &r.s(&["cname", "msid", "mslabel", "CNAME", "x", "fmtp"]); if r.p(80) { s += ":"; s += &word(r); if r.p(30) { s += " "; s += &word(r); } } } s }
        "ssrc-group" => { let mut t = vec![kw(r, &["DUP", "FID", "FEC", "FEC-FR", "SIM"], true, bad)]; let k = if r.p(bad) { 0 } else { 1 + r.n(4) }; for _ in 0..k { t.push(num(r, U32, bad)); } sps(r, t) }
        _ => String::new(),
    }
}
pub fn is_flag(n: &str) -> bool { FLAGS.iter().any(|f| f.0 == n) }
/// an attribute text: name[:value]
pub fn attr_of(r: &mut Rng, name: &str, bad: usize) -> String {
    let n = case(r, name);
    if is_flag(name) { if r.p(bad) { format!("{n}:{}", if r.p(50) { String::new() } else { word(r) }) } else { n } }
    else { let v = value(r, name, bad); let b = if r.p(5) { " " } else { "" }; if r.p(bad / 4) { n } else { format!("{n}:{b}{v}") } }
}
pub fn attr(r: &mut Rng, bad: usize) -> String { let names = attr_names(); let n = if r.p(15) { "fmtp" } else { *r.pick(&names) }; if r.p(bad / 3) { return format!("{}:{}", r.s(&["foo", "bundle_only", "candidates", "rtcp-mu", "x-google-flag", "", "cand idate", "İce-lite", "ſetup"]), word(r)); } attr_of(r, n, bad) }
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut c = c;
    let k = 1 + r.n(2);
    for _ in 0..k {
        let i = r.n(c.len() + 1);
        match r.n(6) {
            0 if i < c.len() => { c.remove(i); }
            1 => c.insert(i, *r.pick(&[' ', '\t', ':', ';', '=', ',', '/', '[', ']', '-', '~', '*', '0', '9', 'a', 'Z', 'é', '𝒳', '\u{a0}', '\0', '+', '.', '"', '\u{85}', '\u{2028}', '\u{b}'])),
            2 if i < c.len() => c[i] = *r.pick(&[' ', ':', ';', '=', ',', '/', '[', ']', '-', '0', '5', 'x', 'é', '\u{3000}']),
            3 if c.len() > 1 => { let j = r.n(c.len()); let (a, b) = (i.min(j), i.max(j)); if b - a < 8 { c.drain(a..b); } }
            4 if c.len() > 1 => { let j = r.n(c.len()); let (a, b) = (i.min(j), i.max(j)); let x: Vec<char> = c[a..b].to_vec(); for (q, y) in x.into_iter().enumerate() { c.insert(b + q, y); } }
            5 => { c.truncate(i); }
            _ => {}
        }
        if c.len() > 4000 { break; }
    }
    c.into_iter().collect()
}
pub fn origin(r: &mut Rng, bad: usize) -> String { let (f, a) = fam_addr(r, bad); let mut t = vec![word(r), num(r, u64::MAX, bad), num(r, u64::MAX, bad), net(r, bad), f, a]; if r.p(bad) { let k = r.n(6); t.truncate(k); } if r.p(3) { t.push(word(r)); } sps(r, t) }
pub fn connection(r: &mut Rng, bad: usize) -> String {
    let (f, mut a) = fam_addr(r, bad);
    match r.n(5) { 0 => a = format!("{a}/{}", num(r, 255, bad)), 1 => a = format!("{a}/{}/{}", num(r, 255, bad), num(r, U32, bad)), _ => {} }
    let mut t = vec![net(r, bad), f, a]; if r.p(bad) { if r.p(50) { t.pop(); } else { t.push(word(r)); } } sps(r, t)
}
pub fn bandwidth(r: &mut Rng, bad: usize) -> String { let k = r.s(&["AS", "CT", "TIAS", "X-YZ", "ASS", "RS", "foo", ""]); let mut s = format!("{}:{}", case(r, &k), num(r, U32, bad)); if r.p(bad) { s = if r.p(50) { format!("{s}:1") } else { k }; } s }
pub fn timing(r: &mut Rng, bad: usize) -> String { let mut t = vec![num(r, u64::MAX, bad), num(r, u64::MAX, bad)]; if r.p(bad) { t.pop(); } else if r.p(bad) { t.push("0".into()); } sps(r, t) }
pub fn ptnum(r: &mut Rng, bad: usize) -> String { if r.p(bad) { r.s(&["1", "2", "19", "64", "95", "80", "128", "255", "300", "4294967296", "x", "-1"]) } else { r.s(&["0", "3", "18", "20", "63", "96", "127", "111", "101", "8", "9", "126", "97"]) } }
pub fn media(r: &mut Rng, bad: usize) -> String {
    let m = if r.p(bad) { r.s(&["text", "message", "image", "audi", "audios"]) } else { r.pick(&MEDIA).0.to_string() };
    let mut port = num(r, 65535, bad); if r.p(30) { port = format!("{port}/{}", num(r, U32, bad)); }
    let p = if r.p(bad) { r.s(&["RTP", "UDP/TLS", "RTP/SAVPFF", "TCP/RTP/AVP", "DTLS"]) } else { r.pick(&PROTO).0.to_string() };
    let mut t = vec![case(r, &m), port, case(r, &p)];
    let k = 1 + r.n(4);
    for _ in 0..k { t.push(if m == "application" { word(r) } else { ptnum(r, bad) }); }
    if r.p(bad) { let k = r.n(4); t.truncate(k); }
    sps(r, t)
}
pub fn line(r: &mut Rng, bad: usize) -> String {
    let (k, v) = match r.n(9) { 0 => ("o", origin(r, bad)), 1 => ("c", connection(r, bad)), 2 => ("b", bandwidth(r, bad)), 3 => ("t", timing(r, bad)), 4 | 5 => ("m", media(r, bad)), 6 => ("v", num(r, 0, bad)), 7 => ("s", r.s(&["-", " ", "", "name", " two words ", "é"])), _ => ("a", attr(r, bad)) };
    if r.p(bad) { return match r.n(8) { 0 => format!("{k}{v}"), 1 => format!("{k}k={v}"), 2 => format!("={v}"), 3 => format!("{k}="), 4 => format!("{}={v}", r.s(&["e", "i", "k", "p", "r", "u", "z", "x", "é", "1"])), 5 => format!("{k}= "), 6 => format!("{k} {v}"), _ => k.to_string() }; }
    let k = if r.p(15) { k.to_uppercase() } else { k.to_string() };
    match r.n(20) { 0 => format!(" {k}={v}"), 1 => format!("{k} ={v}"), 2 => format!("{k}= {v} "), 3 => format!("{k}=\t{v}\t"), _ => format!("{k}={v}") }
}

// ---------------------------------------------------------------- whole texts
pub fn wrap(l: &str, media: bool) -> String { format!("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.2.3.4\r\n{}{l}\r\n", if media { "m=audio 9 RTP/AVP 0\r\n" } else { "" }) }
/// a whole description; bad: percentage for malformed lines and rule-breaking edits (0: structurally valid, but for chance)
pub fn session(r: &mut Rng, bad: usize) -> String {
    use crate::eval::{MEDIA_FORBIDDEN, SESSION_FORBIDDEN};
    let names = attr_names();
    let mut l: Vec<String> = vec!["v=0".into(), format!("o={}", origin(r, 0)), match r.n(6) { 0 => "s= ".into(), 1 => "s=".into(), 2 => "s= my  call ".into(), 3 => "s=x=y".into(), _ => "s=-".into() }];
    let mut body: Vec<String> = vec![];
    let has_c = r.p(60);
    if has_c { body.push(format!("c={}", connection(r, 0))); if r.p(10) { body.push(format!("c={}", connection(r, 0))); } }
    let k = r.n(3); for _ in 0..k { body.push(format!("b={}", bandwidth(r, 0))); }
    body.push(format!("t={}", timing(r, 0))); if r.p(10) { body.push(format!("t={}", timing(r, 0))); }
    let sext = r.p(20);
    let k = r.n(6);
    for _ in 0..k { let n = *r.pick(&names); if SESSION_FORBIDDEN.contains(&n) && !r.p(bad / 3) { continue; } if n == "extmap" && !sext && !r.p(bad) { continue; } body.push(format!("a={}", attr_of(r, n, 0))); }
    r.shuffle(&mut body);
    l.extend(body);
    let nm = r.n(4);
    for _ in 0..nm {
        let app = r.p(25);
        let mut pts: Vec<u32> = vec![];
        if app { l.push(format!("m=application {} {} {}", num(r, 65535, 0), r.pick(&PROTO[8..]).0, r.s(&["webrtc-datachannel", "5000", "101"]))); pts.push(5000); }
        else { let k = 1 + r.n(4); pts = (0..k).map(|_| *r.pick(&[0u32, 3, 20, 63, 96, 97, 100, 126, 127, 111])).collect(); l.push(format!("m={} {}{} {} {}", r.s(&["audio", "video", "Audio"]), num(r, 65535, 0), if r.p(20) { format!("/{}", r.n(5)) } else { String::new() }, r.pick(&PROTO[..8]).0, pts.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" "))); }
        let mut body: Vec<String> = vec![];
        if !has_c || r.p(40) { if !r.p(bad / 2) { body.push(format!("c={}", connection(r, 0))); } }
        let k = r.n(3); for _ in 0..k { body.push(format!("b={}", bandwidth(r, 0))); }
        let k = r.n(8);
        for _ in 0..k {
            let n = *r.pick(&names);
            if n == "dtls-message" { body.push(format!("a={}", attr_of(r, n, 0))); continue; }
            if ["rid", "simulcast", "rtcp-mux-only"].contains(&n) { continue; }
            if MEDIA_FORBIDDEN.contains(&n) && !r.p(bad / 3) { continue; }
            if n == "extmap" && sext && !r.p(bad) { continue; }
            body.push(format!("a={}", attr_of(r, n, 0)));
        }
        if r.p(25) { body.push("a=rtcp-mux-only".into()); if !r.p(bad * 2) { body.push("a=rtcp-mux".into()); } else if r.p(50) { body.push("a=rtcp-rsize".into()); } }
        if r.p(40) {
            let k = 1 + r.n(4); let mut ids: Vec<(String, &str)> = vec![];
            for q in 0..k {
                let d = if r.p(50) { "send" } else { "recv" }; let id = if r.p(20) && q > 0 { ids[0].0.clone() } else { r.s(&["a", "b", "hi", "lo", "1", "A", "c-d"]) };
                let pt = if r.p(50) && !app { let k = 1 + r.n(3); let v: Vec<String> = (0..k).map(|_| if r.p(bad) { r.s(&["5", "98", "65535", "1", "0"]) } else { r.pick(&pts).to_string() }).collect(); Some(format!("pt={}", v.join(","))) } else if app && r.p(50) { Some(format!("pt={}", r.s(if bad > 0 { &["5000", "101", "5001"] } else { &["5000"] }))) } else { None };
                let mut s = format!("a=rid:{id} {d}"); if let Some(p) = pt { s += &format!(" {p}"); if r.p(40) { s += ";max-width=5"; } } else if r.p(30) { s += " max-br=7;depends=a,b"; }
                body.push(s); ids.push((id, d));
            }
            if r.p(60) {
                let mk = |r: &mut Rng, d: &str| -> Option<String> { let c: Vec<String> = ids.iter().filter(|x| x.1 == d || r.p(bad)).map(|x| x.0.clone()).collect(); if c.is_empty() { return None; } let k = 1 + r.n(3); Some((0..k).map(|_| { let i = r.pick(&c).clone(); let t = if r.p(20) { "~" } else { "" }; if r.p(bad / 2) { format!("{t}{}", r.s(&["zz", "A", "a"])) } else { format!("{t}{i}") } }).collect::<Vec<_>>().join(if r.p(50) { ";" } else { "," })) };
                let (s, v) = (mk(r, "send"), mk(r, "recv"));
                match (s, v) { (Some(s), Some(v)) => body.push(if r.p(50) { format!("a=simulcast:send {s} recv {v}") } else { format!("a=simulcast:recv {v} send {s}") }), (Some(s), None) => body.push(format!("a=simulcast:send {s}")), (None, Some(v)) => body.push(format!("a=simulcast:recv {v}")), _ => {} }
                if r.p(bad) { body.push("a=simulcast:send nowhere".into()); }
            }
        }
        r.shuffle(&mut body);
        l.extend(body);
    }
    if bad > 0 && r.p(60) {
        let k = 1 + r.n(2);
        for _ in 0..k {
            let i = r.n(l.len()); let j = r.n(l.len());
            match r.n(9) {
                0 => { l.remove(i); } 1 => { let x = l[i].clone(); l.insert(j, x); } 2 => l.swap(i, j), 3 => { let x = line(r, bad); l.insert(j, x); }
                4 => { let x = r.s(&crate::eval::UNSUPPORTED); l.insert(i, x); } 5 => { if r.p(30) { let x = r.s(&crate::eval::MALFORMED); l.insert(i, x); } }
                6 => { let x = r.s(&["t=0 0", "c=IN IP4 1.2.3.4", "v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=x", "b=AS:5", "m=audio 9 RTP/AVP 0", "a=extmap:1 urn:a", "a=dtls-message:client x", "a=rtcp-mux-only", "a=rtcp-mux", "a=rid:z send", "a=group:BUNDLE a"]); l.insert(j, x); }
                7 => l.insert(i, r.s(&["", " ", "\t"])), _ => { let x = format!("{}{}", l[i], r.s(&[" ", "\t", ""])); l[i] = x; }
            }
        }
    }
    let nl = if r.p(80) { "\r\n" } else { "\n" };
    let mut t = l.join(nl); if !r.p(5) { t += nl; }
    t
}
pub fn policy(r: &mut Rng) -> String {
    use crate::eval::{MALFORMED, UNSUPPORTED};
    let s = session(r, 0);
    let mut l: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    let (nb, nu, nn) = (if r.p(35) { 1 + r.n(2) } else { 0 }, if r.p(65) { 1 + r.n(4) } else { 0 }, r.n(4));
    let mut add: Vec<String> = vec![];
    for _ in 0..nb { add.push(r.s(&MALFORMED)); } for _ in 0..nu { add.push(r.s(&UNSUPPORTED)); } for _ in 0..nn { add.push(r.s(&["", " ", "\t "])); }
    r.shuffle(&mut add);
    for x in add { let i = match r.n(6) { 0 => l.len(), 1 => 0, _ => r.n(l.len() + 1) }; l.insert(i, x); }
    l.join("\r\n") + "\r\n"
}
pub fn maskops(r: &mut Rng, i: usize) -> Vec<String> {
    if i % 40 == 0 { return vec![format!("{}#{}#{}", ["port", "ip", "ip6", "user", "pwd", "ufrag", "cname", "host", "fp"][(i / 40) % 9], if r.p(50) { 0 } else { r.u() % 100000 }, if (i / 360) % 200 == 1 && r.p(40) { 70000 } else { 2000 })]; }
    let k = 2 + r.n(40);
    let kinds = ["ip", "addr", "typed4", "typed6", "host", "port", "user", "pwd", "ufrag", "cname", "fp"];
    let few = r.p(50); let mut pool: Vec<String> = vec![];
    (0..k).map(|_| {
        let kd = if few { *r.pick(&kinds[..]) } else { kinds[r.n(3)] };
        let v = match kd { "ip" => if r.p(50) { ip4(r) } else { ip6(r) }, "addr" => addr(r), "typed4" => if r.p(50) { ip4(r) } else { host(r) }, "typed6" => if r.p(50) { ip6(r) } else { host(r) }, "port" => match r.n(4) { 0 => r.n(10).to_string(), 1 => (r.u() as u32).to_string(), _ => r.n(65536).to_string() },
            _ => match r.n(5) { 0 => r.s(&["", "a", "A", "ab", "b", "aa", "user-00000001", "cname-00000001", "ice-user-00000001", "origin-user-00000002", "fqdn-00000001", "é"]), 1 if !pool.is_empty() => r.pick(&pool).clone(), _ => word(r) } };
        pool.push(v.clone());
        format!("{kd}={v}")
    }).collect()
}
pub fn edits(r: &mut Rng) -> Vec<String> {
    let names = attr_names(); let few: Vec<&str> = (0..4).map(|_| *r.pick(&names)).chain(["rtpmap", "sctpmap", "sctp-port", "max-message-size", "fmtp", "mid"]).collect();
    let k = 3 + r.n(16);
    let mut v = vec![format!("s.ext {}", media(r, 0))];
    for _ in 0..k {
        let n = if r.p(80) { *r.pick(&few) } else { *r.pick(&names) };
        v.push(match r.n(16) {
            0 | 1 | 2 => format!("add {}", attr_of(r, n, 0)), 3 | 4 => format!("set {}", attr_of(r, n, 0)), 5 => format!("rm {n}"), 6 => format!("bw {}", bandwidth(r, 0)), 7 => format!("conn {}", connection(r, 0)), 8 => format!("port {}", r.n(70000)),
            9 => "nocodecs".into(), 10 => format!("codec {} {}/{}", r.n(128), r.s(&["VP8", "opus"]), r.n(90000)), 11 => format!("dc {} {} {} {}", r.s(&["webrtc-datachannel", "x"]), r.n(65536), r.n(65536), if r.p(40) { 0 } else { r.u() % (1 << 32) }), 12 => format!("q {n}"),
            13 => match r.n(7) { 0 => format!("s.bw {}", bandwidth(r, 0)), 1 => format!("s.conn {}", connection(r, 0)), 2 => format!("s.time {}", timing(r, 0)), 3 | 4 => format!("s.ext {}", media(r, 0)), _ => format!("s.media {} {} {} {} {}", r.s(&["sendrecv", "recvonly", "inactive", "ice-lite", "sendonly"]), r.n(65536), r.pick(&PROTO).0, r.pick(&MEDIA).0, ip4(r)) },
            14 => format!("s.add {}", attr_of(r, n, 0)), _ => format!("s.q {n}"),
        });
        if r.p(30) { v.push(format!("q {n}")); }
    }
    v
}
pub fn equals(r: &mut Rng) -> Vec<String> {
    let base = host(r);
    let k = 2 + r.n(4);
    (0..k).map(|_| { let f = r.s(&["4", "6"]); match r.n(6) { 0 => format!("{f} ip:{}", ip4(r)), 1 => format!("{f} ip:{}", ip6(r)), 2 => format!("{f} host:{}", host(r)), 3 => format!("{f} host:{}", r.s(&["127.0.0.1", "::1", "1.2.3.4", "localhost", "LOCALHOST", ""])), 4 => format!("{f} ip:{}", r.s(&["127.0.0.1", "::1", "1.2.3.4", "::ffff:1.2.3.4", "::102:304"])), _ => format!("{f} host:{}", case(r, &base)) } }).collect()
}
const TABLES: [(&str, &[&str]); 15] = [("media", &["audio", "video", "application"]), ("proto", &["RTP/AVP", "RTP/AVPF", "RTP/SAVP", "RTP/SAVPF", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF", "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP"]),
    ("ctype", &["host", "srflx", "prflx", "relay"]), ("transport", &["udp", "tcp"]), ("tcptype", &["active", "passive", "so"]), ("setup", &["active", "actpass", "holdconn", "passive"]), ("direction", &["send", "recv"]), ("extdir", &["sendonly", "recvonly", "sendrecv"]),
    ("ssrcgroup", &["DUP", "FID", "FEC", "FEC-FR", "SIM"]), ("group", &["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"]), ("hash", &["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"]), ("fb", &["ack", "ccm", "nack", "trr-int", "goog-remb", "transport-cc"]),
    ("bw", &["AS", "CT", "TIAS", "RS", "RR", "X-YZ"]), ("ext", &["foo", "Foo", "network-id", "tcp"]), ("name", &[])];
pub fn keyword(r: &mut Rng, i: usize) -> (&'static str, Vec<String>) {
    let names = attr_names();
    if i % 2 == 0 { let n = names[(i / 2) % names.len()]; let w = match r.n(8) { 0 => near(r, n), _ => case(r, n) }; return ("kw", vec!["name".into(), w]); }
    let (t, ws) = TABLES[(i / 2) % 14];
    let (_, other) = TABLES[r.n(14)];
    let w = match r.n(10) { 0 => { let x = r.s(ws); near(r, &x) } 1 => r.s(other), _ => { let x = r.s(ws); case(r, &x) } };
    ("kw", vec![t.into(), w])
}
fn near(r: &mut Rng, s: &str) -> String { let c: Vec<char> = s.chars().collect(); let mut c = c; let i = r.n(c.len().max(1)); match r.n(6) { 0 => { c.remove(i); } 1 => c.insert(i, 'x'), 2 => c.push('s'), 3 => { let x = c[i]; c.insert(i, x); } 4 => { c[i] = match c[i] { 's' | 'S' => 'ſ', 'k' | 'K' => 'K', 'i' | 'I' => 'İ', '-' => '_', _ => 'q' } } _ => { c.truncate(i); } } c.into_iter().collect() }
/// cases that every run starts with
pub fn fixed(p: &str) -> Vec<(&'static str, Vec<String>)> {
    let mut o: Vec<(&'static str, Vec<String>)> = vec![];
    match p {
        "C01" => for n in attr_names() { for v in ["", " ", ":", "[", "]", "[]", ",", ";", "=", "/", "-", "*", "0", "0 ", " 0", "0 [", "0 send [", "* send [x=", "* send [x=,y=", "0 0", "é", "\u{a0}", "a b c d e f g h i", "0/", "/0", "0 IN", "0 IN IP4", "0 /", "0 -", "0 1-", "96 send", "a send pt=", "a send ;", "send ;", "send ,", "send ~", "sha-256 :", "1 :", "1 a:"] { o.push(("panic", vec![wrap(&format!("a={n}:{v}"), false)])); } o.push(("panic", vec![wrap(&format!("a={n}"), true)])); },
        "C03" => for n in attr_names() { o.push(("level", vec![crate::eval::sample(n)])); },
        "C04" => for (t, max, _) in crate::eval::RANGES { let m = max as u128; for n in [0, 1, m.saturating_sub(1), m, m + 1, m + 2, 2 * m + 2, 255, 256, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 5] { o.push(("range", vec![t.into(), n.to_string()])); } o.push(("range", vec![t.into(), "-1".into()]));
            if t.starts_with("m=") && max == 127 { for n in 0..260 { o.push(("range", vec![t.into(), n.to_string()])); } } },
        "C15" => { for n in attr_names() { o.push(("kw", vec!["name".into(), n.into()])); o.push(("kw", vec!["name".into(), n.to_uppercase()])); } for (t, ws) in TABLES { for w in ws { o.push(("kw", vec![t.into(), w.to_string()])); o.push(("kw", vec![t.into(), w.to_uppercase()])); o.push(("kw", vec![t.into(), w.to_lowercase()])); for (_, other) in TABLES { for x in other { o.push(("kw", vec![t.into(), x.to_string()])); } } } } }
        "C11" => for k in ["ip", "port", "user", "pwd", "ufrag", "cname", "host", "fp"] { o.push(("maskseq", vec![format!("{k}#0#70000")])); },
        "C17" => for n in attr_names() { for m in [true, false] { o.push(("ser", vec![wrap(&format!("a={}", crate::eval::sample(n)), m), "lenient".into()])); } },
        "C09" => for n in attr_names() { o.push(("rt", vec![crate::eval::sample(n)])); },
        _ => {}
    }
    o
}
