//! Mechanical extraction of a Rust crate into the dialect the Verus driver assembles.
//!
//! Everything here is a text edit on spans of the real source: the code between the edits is copied
//! verbatim.  The edits are listed in DESIGN.md ("What the extraction drops and rewrites").
//!
//! usage: extractor <src-dir>  -> JSON on stdout
use proc_macro2::TokenTree;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

type Edit = (Range<usize>, String);

fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.0.start, e.0.end));
    let mut out = String::with_capacity(text.len() + 1024);
    let mut pos = 0;
    for (r, s) in edits {
        if r.start < pos {
            continue; // nested in an edit already applied: the next iteration sees it
        }
        out.push_str(&text[pos..r.start]);
        out.push_str(&s);
        pos = r.end;
    }
    out.push_str(&text[pos..]);
    out
}

// syn spans count chars for non-ASCII? proc_macro2 byte_range() is in bytes relative to the parsed text.
fn rng<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}
// `Span::join` is only available for the fallback; spans of multi-token nodes are joined there.
fn txt<'a, T: Spanned>(src: &'a str, t: &T) -> &'a str {
    &src[rng(t)]
}
// every syn::parse_file call registers a new "file" in the span source map, so byte ranges keep growing;
// resetting before each parse keeps ranges relative to the text being parsed.
fn parse(text: &str) -> std::result::Result<File, String> {
    proc_macro2::extra::invalidate_current_thread_spans();
    // after invalidation the source map still has one dummy file of length 0 -> first file starts at 1
    syn::parse_file(text).map_err(|e| {
        let s = e.span().start();
        format!("{} at line {}: {}", e, s.line, text.lines().nth(s.line.saturating_sub(1)).unwrap_or(""))
    })
}

fn is_cfg_dropped(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") && !s.contains("not") || s.contains("feature") && !s.contains("not")
        }
    })
}

struct MacroDef {
    params: Vec<String>,
    repeated: bool,
    body: String,
}

// ---------------------------------------------------------------- macro_rules (subset)
fn macro_def(src: &str, m: &ItemMacro) -> std::result::Result<(String, MacroDef), String> {
    let name = m.ident.as_ref().ok_or("macro without name")?.to_string();
    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    // ( pattern ) => { body } ;?
    let groups: Vec<&proc_macro2::Group> =
        toks.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
    if groups.len() != 2 {
        return Err(format!("macro {name}: more than one rule"));
    }
    let pat = groups[0].stream().to_string();
    let br = groups[1].span().byte_range();
    let body = src[br.start + 1..br.end - 1].to_string();
    let compact: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
    if compact.starts_with("$(") {
        // $($x:expr),*
        let inner = compact.trim_start_matches("$(");
        let close = inner.find(')').ok_or("bad repetition")?;
        let one = &inner[..close];
        let rest = &inner[close + 1..];
        if !(rest == ",*" || rest == ",*$(,)?" || rest == "*") {
            return Err(format!("macro {name}: unsupported repetition {rest}"));
        }
        let x = one.trim_start_matches('$').split(':').next().unwrap().to_string();
        return Ok((name, MacroDef { params: vec![x], repeated: true, body }));
    }
    let mut params = vec![];
    for p in compact.split(',').filter(|p| !p.is_empty()) {
        let p = p.strip_prefix('$').ok_or(format!("macro {name}: pattern {p}"))?;
        let (n, frag) = p.split_once(':').ok_or(format!("macro {name}: pattern {p}"))?;
        if !matches!(frag, "expr" | "ident" | "ty" | "literal" | "tt") {
            return Err(format!("macro {name}: fragment {frag}"));
        }
        params.push(n.to_string());
    }
    Ok((name, MacroDef { params, repeated: false, body }))
}

fn subst_var(body: &str, var: &str, val: &str) -> String {
    let key = format!("${var}");
    let mut out = String::new();
    let mut rest = body;
    while let Some(i) = rest.find(&key) {
        let after = &rest[i + key.len()..];
        let boundary = after.chars().next().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        out.push_str(&rest[..i]);
        if boundary {
            out.push_str(val);
        } else {
            out.push_str(&key);
        }
        rest = after;
    }
    out.push_str(rest);
    out
}

fn wrap_arg(a: &str) -> String {
    let t = a.trim();
    match syn::parse_str::<Expr>(t) {
        Ok(Expr::Lit(_)) | Ok(Expr::Path(_)) | Ok(Expr::Field(_)) | Ok(Expr::MethodCall(_)) | Ok(Expr::Call(_)) | Ok(Expr::Match(_)) | Ok(Expr::Macro(_)) => t.to_string(),
        _ => format!("({t})"),
    }
}

fn expand_macro(def: &MacroDef, args: &[String]) -> std::result::Result<String, String> {
    if def.repeated {
        let i = def.body.find("$(").ok_or("no repetition in body")?;
        let bytes: Vec<char> = def.body[i + 1..].chars().collect();
        let mut depth = 0;
        let mut end = 0;
        for (k, c) in bytes.iter().enumerate() {
            match c {
                '(' | '{' | '[' => depth += 1,
                ')' | '}' | ']' => {
                    depth -= 1;
                    if depth == 0 {
                        end = k;
                        break;
                    }
                }
                _ => (),
            }
        }
        let inner: String = bytes[1..end].iter().collect();
        let after: String = bytes[end + 1..].iter().collect();
        let after = after.trim_start();
        let (sep, after) = if let Some(a) = after.strip_prefix(",*") {
            (",", a)
        } else if let Some(a) = after.strip_prefix('*') {
            ("", a)
        } else if let Some(a) = after.strip_prefix(";*") {
            (";", a)
        } else {
            return Err("repetition operator".into());
        };
        let mid = args.iter().map(|a| subst_var(&inner, &def.params[0], &wrap_arg(a))).collect::<Vec<_>>().join(sep);
        let t = format!("{}{}{}", &def.body[..i], mid, after);
        return Ok(t.trim().to_string());
    }
    if args.len() != def.params.len() {
        return Err("macro arity".into());
    }
    let mut b = def.body.clone();
    for (p, a) in def.params.iter().zip(args) {
        b = subst_var(&b, p, &wrap_arg(a));
    }
    Ok(b.trim().to_string())
}

fn mac_args(src: &str, mac: &Macro) -> std::result::Result<Vec<(Option<String>, String)>, String> {
    // arguments as source text; a leading `name = expr` gives the name
    let parser = Punctuated::<Expr, Token![,]>::parse_terminated;
    let es = parser.parse2(mac.tokens.clone()).map_err(|e| format!("macro args: {e}"))?;
    Ok(es
        .iter()
        .map(|e| match e {
            Expr::Assign(a) => {
                if let Expr::Path(p) = &*a.left {
                    (Some(p.path.get_ident().map(|i| i.to_string()).unwrap_or_default()), txt(src, &a.right).to_string())
                } else {
                    (None, txt(src, e).to_string())
                }
            }
            _ => (None, txt(src, e).to_string()),
        })
        .collect())
}

// ---------------------------------------------------------------- format strings
enum Piece {
    Lit(String),
    Arg { arg: String, spec: String },
}
fn parse_fmt(s: &str) -> std::result::Result<Vec<Piece>, String> {
    let mut v = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                let mut inner = String::new();
                while j < cs.len() && cs[j] != '}' {
                    inner.push(cs[j]);
                    j += 1;
                }
                if !lit.is_empty() {
                    v.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let (a, sp) = inner.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((inner.clone(), String::new()));
                v.push(Piece::Arg { arg: a.trim().to_string(), spec: sp.trim().to_string() });
                i = j + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        v.push(Piece::Lit(lit));
    }
    Ok(v)
}

/// desugars the arguments of format!/write! into pushes onto `target`
fn fmt_pushes(args: &[(Option<String>, String)], target: &str) -> std::result::Result<(String, String), String> {
    let first = &args.first().ok_or("empty format")?.1;
    let lit: LitStr = syn::parse_str(first).map_err(|_| format!("format string is not a literal: {first}"))?;
    let pieces = parse_fmt(&lit.value())?;
    let mut binds = String::new();
    let mut pushes = String::new();
    let mut named: BTreeMap<String, String> = BTreeMap::new();
    let mut pos = 0usize;
    for (k, (n, e)) in args[1..].iter().enumerate() {
        let v = format!("__a{k}");
        binds.push_str(&format!("let {v} = &({e}); "));
        match n {
            Some(n) => {
                named.insert(n.clone(), v);
            }
            None => {
                named.insert(pos.to_string(), v);
                pos += 1;
            }
        }
    }
    let mut next = 0usize;
    // ghost code kept in a comment; the driver uses it for functions whose contract asks for it (#acc)
    let tg = target.trim_start_matches("&mut ").to_string();
    let mut first_piece = true;
    let mut acc = |pushes: &mut String, piece: &str| {
        if piece.contains("*/") {
            return;
        }
        if first_piece {
            pushes.push_str(&format!("/*@G proof {{ __gx = {piece}; assert({tg}@ == __g0 + __gx); }} G@*/"));
        } else {
            pushes.push_str(&format!("/*@G proof {{ lemma_add_assoc(__g0, __gx, {piece}); __gx = __gx + {piece}; assert({tg}@ == __g0 + __gx); }} G@*/"));
        }
        first_piece = false;
    };
    for p in pieces {
        match p {
            Piece::Lit(s) => {
                pushes.push_str(&format!("{target}.lit({s:?}); "));
                acc(&mut pushes, &format!("{s:?}@"));
            }
            Piece::Arg { arg, spec } => {
                let key = if arg.is_empty() {
                    next += 1;
                    (next - 1).to_string()
                } else {
                    arg.clone()
                };
                let val = match named.get(&key) {
                    Some(v) => v.clone(),
                    None => {
                        if key.parse::<usize>().is_ok() {
                            return Err("missing positional argument".into());
                        }
                        format!("&({key})")
                    }
                };
                if spec.is_empty() {
                    pushes.push_str(&format!("let _ = VDisplay::fmt({val}, {target}); "));
                    acc(&mut pushes, &format!("({val}).disp()"));
                } else if spec == "?" {
                    pushes.push_str(&format!("vfmt_debug({val}, {target}); "));
                } else {
                    // [0][width][$][x|X]
                    let upper = spec.ends_with('X');
                    let hex = upper || spec.ends_with('x');
                    let core = spec.trim_end_matches(['x', 'X']);
                    let zero = core.starts_with('0');
                    let w = core.trim_start_matches('0');
                    let width = if w.is_empty() {
                        "0".to_string()
                    } else if let Some(n) = w.strip_suffix('$') {
                        match named.get(n) {
                            Some(v) => format!("*({v})"),
                            None => n.to_string(),
                        }
                    } else if w.parse::<usize>().is_ok() {
                        w.to_string()
                    } else {
                        return Err(format!("format spec {spec}"));
                    };
                    if !zero && !w.is_empty() {
                        return Err(format!("format spec {spec}"));
                    }
                    let f = if hex && upper { "fmt_hex_upper" } else if hex { "fmt_hex_lower" } else { "fmt_pad0" };
                    pushes.push_str(&format!("VDisplayInt::{f}({val}, {width}, {target}); "));
                    let sf = if hex && upper { "hex_upper" } else if hex { "hex_lower" } else { "pad0" };
                    acc(&mut pushes, &format!("{sf}(({val}).ival(), {width} as int)"));
                }
            }
        }
    }
    Ok((binds, pushes))
}

// ---------------------------------------------------------------- expression passes
struct Ctx<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    macros: &'a BTreeMap<String, MacroDef>,
    notes: &'a mut BTreeSet<String>,
    dropped: &'a mut BTreeMap<String, usize>,
    phase: u8,
    mutref: Vec<String>,
    result_fn: bool,
}

const LOG: [&str; 5] = ["trace", "debug", "info", "warn", "error"];

const RENAME: &[&str] = &[
    "split", "splitn", "rsplitn", "rsplit", "split_once", "rsplit_once", "split_whitespace", "split_ascii_whitespace", "split_terminator", "lines", "chars", "bytes", "char_indices", "trim", "trim_start", "trim_end",
    "trim_matches", "trim_start_matches", "trim_end_matches", "trim_left", "trim_right", "parse", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case",
    "find", "rfind", "starts_with", "ends_with", "strip_prefix", "strip_suffix", "contains", "replace", "replacen", "repeat", "matches", "iter", "iter_mut", "into_iter", "drain", "map", "filter",
    "filter_map", "flat_map", "flatten", "find_map", "all", "any", "position", "fold", "for_each", "take", "skip", "take_while", "skip_while", "enumerate", "zip", "chain", "rev", "cloned", "copied", "peekable", "count",
    "last", "nth", "collect", "join", "concat", "retain", "extend", "extend_from_slice", "sum", "max", "min", "to_string", "to_owned", "to_vec", "as_ref", "as_mut", "first", "get",
    "is_char_boundary", "write_str", "write_char", "push_str", "try_from", "from_str", "sort", "dedup", "swap_remove", "into_bytes", "as_bytes", "is_alphanumeric", "is_ascii_digit", "is_ascii_hexdigit", "is_ascii",
    "or_insert", "or_insert_with", "entry", "unwrap_or_default", "contains_key", "by_ref", "unwrap_or_else", "and_then", "or_else", "then", "then_some", "filter_ok", "to_digit", "is_numeric", "is_whitespace",
    "partition", "last_mut", "first_mut", "take_v", "eq", "ne", "cmp", "as_deref", "is_some_and", "is_ok_and", "is_none_or", "map_or", "map_or_else", "saturating_add", "checked_add", "wrapping_add", "reverse", "to_be_bytes", "to_le_bytes", "truncate", "split_at", "split_off", "insert_str", "windows", "chunks", "from_str_radix", "append", "eq_ignore_case",
];

fn iterish(e: &Expr) -> bool {
    const IT: &[&str] = &[
        "iter", "iter_mut", "into_iter", "split", "splitn", "split_whitespace", "lines", "chars", "bytes", "map", "filter", "filter_map", "flat_map", "enumerate", "skip", "take", "rev", "cloned", "copied", "drain", "zip", "chain", "char_indices", "split_terminator", "split_ascii_whitespace", "skip_while", "take_while", "rsplit", "rsplitn", "keys", "values",
    ];
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let n = n.strip_suffix("_v").unwrap_or(&n).to_string();
            if n == "map" {
                // Option/Result map or iterator map: look further
                return iterish(&m.receiver);
            }
            IT.contains(&n.as_str())
        }
        Expr::Paren(p) => iterish(&p.expr),
        Expr::Call(c) => c.func.to_token_stream().to_string().replace(' ', "").contains("iter::"),
        _ => false,
    }
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn mentions(e: &Expr, names: &[String]) -> bool {
    let s: Vec<String> = e.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect();
    names.iter().any(|n| s.contains(n))
}

impl<'a> Ctx<'a> {
    fn mac(&mut self, mac: &Macro, whole: Range<usize>, stmt: bool) -> bool {
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if self.phase == 1 {
            if let Some(d) = self.macros.get(&name) {
                let r = mac_args(self.src, mac).and_then(|a| {
                    let a: Vec<String> = a.into_iter().map(|x| x.1).collect();
                    expand_macro(d, &a)
                });
                match r {
                    Ok(t) => {
                        let t = if stmt { format!("{t};") } else { t };
                        self.edits.push((whole, t));
                        return true;
                    }
                    Err(e) => {
                        self.notes.insert(format!("macro {name}: {e}"));
                        return false;
                    }
                }
            }
        } else {
            return false;
        }
        let semi = if stmt { ";" } else { "" };
        let r: std::result::Result<String, String> = (|| {
            if LOG.contains(&name.as_str()) {
                *self.dropped.entry(format!("{name}!")).or_default() += 1;
                return Ok(if stmt { String::new() } else { "()".into() });
            }
            match name.as_str() {
                "format" => {
                    let (b, p) = fmt_pushes(&mac_args(self.src, mac)?, "&mut __f")?;
                    let p = p.replace("&mut __f.lit", "__f.lit");
                    Ok(format!("{{ {b}let mut __f: VFmt = VFmt::new(); /*@G let ghost __g0: Str = __f@; let ghost mut __gx: Str = __f@; G@*/{p}__f }}{semi}"))
                }
                "write" | "writeln" => {
                    let mut a = mac_args(self.src, mac)?;
                    if a.is_empty() {
                        return Err("write! without target".into());
                    }
                    let tgt = a.remove(0).1;
                    if name == "writeln" {
                        return Err("writeln!".into());
                    }
                    let (b, p) = fmt_pushes(&a, "__t")?;
                    let tgt = tgt.trim();
                    let t = if self.mutref.iter().any(|m| m == tgt) { format!("&mut *{tgt}") } else { format!("&mut {tgt}") };
                    Ok(format!("{{ {b}let __t: &mut VFmt = {t}; /*@G let ghost __g0: Str = __t@; let ghost mut __gx: Str = Seq::empty(); G@*/{p}let __r: VFmtResult = Ok(()); __r }}{semi}"))
                }
                "matches" => {
                    // matches!(expr, pat [if guard])
                    let r = mac.tokens.span().byte_range();
                    let inner = &self.src[r];
                    let first = (|input: syn::parse::ParseStream| -> Result<usize> {
                        let e: Expr = input.parse()?;
                        let _: Token![,] = input.parse()?;
                        let rest: proc_macro2::TokenStream = input.parse()?;
                        let _ = rest;
                        Ok(e.span().byte_range().end)
                    })
                    .parse2(mac.tokens.clone())
                    .map_err(|e| e.to_string())?;
                    let start = mac.tokens.span().byte_range().start;
                    let e = &inner[..first - start];
                    let rest = inner[first - start..].trim_start().trim_start_matches(',').trim().trim_end_matches(',');
                    Ok(format!("(match {e} {{ {rest} => true, _ => false }}){semi}"))
                }
                "vec" => {
                    let s = mac.tokens.to_string();
                    if s.trim().is_empty() {
                        return Ok(format!("Vec::new(){semi}"));
                    }
                    if s.contains(';') {
                        return Err("vec![x; n]".into());
                    }
                    let a = mac_args(self.src, mac)?;
                    let pushes: String = a.iter().map(|x| format!("__v.push({}); ", x.1)).collect();
                    Ok(format!("{{ let mut __v = Vec::new(); {pushes}__v }}{semi}"))
                }
                "unreachable" | "panic" | "todo" | "unimplemented" => Ok(format!("vpanic(){semi}")),
                "assert" | "debug_assert" => {
                    let a = mac_args(self.src, mac)?;
                    Ok(format!("vassert({}){semi}", a[0].1))
                }
                "assert_eq" | "debug_assert_eq" => {
                    let a = mac_args(self.src, mac)?;
                    Ok(format!("vassert({} == {}){semi}", a[0].1, a[1].1))
                }
                "concat" => Err("concat!".into()),
                _ => Err("unknown macro".into()),
            }
        })();
        match r {
            Ok(t) => {
                self.edits.push((whole, t));
                true
            }
            Err(e) => {
                self.notes.insert(format!("{name}!: {e}"));
                false
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_item_macro(&mut self, _: &'ast ItemMacro) {}
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Macro(m) = s {
            let w = rng(m);
            if self.mac(&m.mac, w, m.semi_token.is_some()) {
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_impl_item_fn(&mut self, i: &'ast ImplItemFn) {
        let old = std::mem::replace(&mut self.mutref, mutrefs(&i.sig));
        let oldr = std::mem::replace(&mut self.result_fn, returns_result(&i.sig));
        visit::visit_impl_item_fn(self, i);
        self.result_fn = oldr;
        self.mutref = old;
    }
    fn visit_item_fn(&mut self, i: &'ast ItemFn) {
        let old = std::mem::replace(&mut self.mutref, mutrefs(&i.sig));
        let oldr = std::mem::replace(&mut self.result_fn, returns_result(&i.sig));
        visit::visit_item_fn(self, i);
        self.result_fn = oldr;
        self.mutref = old;
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Macro(m) => {
                let w = rng(m);
                if self.mac(&m.mac, w, false) {
                    return;
                }
            }
            Expr::ForLoop(f) if self.phase == 3 => {
                let label = f.label.as_ref().map(|l| format!("{} ", txt(self.src, l))).unwrap_or_default();
                let pat = txt(self.src, &f.pat);
                let it = txt(self.src, &f.expr);
                let body = txt(self.src, &f.body);
                let is_range = matches!(&*f.expr, Expr::Range(_));
                if is_range {
                    if let Pat::Wild(w) = &*f.pat {
                        self.edits.push((rng(w), "__i".into()));
                    }
                    // native Verus for loop; keep
                    visit::visit_expr_for_loop(self, f);
                    return;
                }
                let t = format!(
                    "{{ let mut __it = VIntoIter::into_iter_v({it}); {label}loop {{ match __it.next() {{ Some({pat}) => {{ /*@LI*/ {body} }} None => break, }} }} }}"
                );
                self.edits.push((rng(f), t));
                return;
            }
            Expr::While(w) if self.phase == 3 && matches!(&*w.cond, Expr::Let(_)) => {
                if let Expr::Let(l) = &*w.cond {
                    let label = w.label.as_ref().map(|l| format!("{} ", txt(self.src, l))).unwrap_or_default();
                    let t = format!("{label}loop {{ match {} {{ {} => {} _ => break, }} }}", txt(self.src, &l.expr), txt(self.src, &l.pat), txt(self.src, &w.body));
                    self.edits.push((rng(w), t));
                }
                return;
            }
            Expr::Closure(c) => {
                // `?` in a closure that returns a Result
                let t = txt(self.src, &c.body);
                let res = match &c.output { ReturnType::Type(_, ty) => txt(self.src, ty).trim_start().starts_with("Result"), _ => t.contains("Ok(") || t.contains("Err(") };
                let oldr = std::mem::replace(&mut self.result_fn, res);
                visit::visit_expr(self, e);
                self.result_fn = oldr;
                return;
            }
            Expr::Try(t) if self.phase == 3 && self.result_fn => {
                let t2 = format!("(match {} {{ Ok(__v) => __v, Err(__e) => return Err(VErrInto::err_into(__e)) }})", txt(self.src, &t.expr));
                self.edits.push((rng(t), t2));
                return;
            }
            Expr::Binary(b) if self.phase == 3 => {
                if let BinOp::AddAssign(_) = b.op {
                    if let Expr::Call(c) = &*b.right {
                        if txt(self.src, &c.func) == "Wrapping" {
                            let t = format!("({}).add_assign_v({})", txt(self.src, &b.left), txt(self.src, &b.right));
                            self.edits.push((rng(b), t));
                            return;
                        }
                    }
                    if matches!(&*b.right, Expr::Reference(_)) || matches!(&*b.right, Expr::Lit(ExprLit{lit: Lit::Str(_), ..})) {
                        let t = format!("({}).push_str_v({})", txt(self.src, &b.left), txt(self.src, &b.right));
                        self.edits.push((rng(b), t));
                        return;
                    }
                }
                if let BinOp::Add(_) = b.op {
                    let strish = match &*b.right {
                        Expr::Reference(_) => true,
                        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
                        _ => false,
                    };
                    if strish {
                        let t = format!("vcat({}, {})", txt(self.src, &b.left), txt(self.src, &b.right));
                        self.edits.push((rng(b), t));
                        return;
                    }
                }
            }
            Expr::MethodCall(m) if self.phase == 3 => {
                let n = m.method.to_string();
                // Option/Result adaptors whose closures can be read as a match
                if (n == "map" || n == "map_err" || n == "and_then" || n == "ok_or_else" || n == "ok_or" || n == "unwrap_or_else" || n == "map_or") && !m.args.is_empty() {
                    let recv = txt(self.src, &m.receiver).to_string();
                    if let Some(Expr::Closure(c)) = m.args.last() {
                        let body = txt(self.src, &c.body).to_string();
                        let pat = c.inputs.first().map(|p| match p {
                            Pat::Type(t) => (txt(self.src, &t.pat).to_string(), Some(txt(self.src, &t.ty).to_string())),
                            p => (txt(self.src, p).to_string(), None),
                        });
                        let bind = |ctor: &str| -> String {
                            match &pat {
                                Some((p, Some(t))) => format!("{ctor}(__x) => {{ let {p}: {t} = __x; "),
                                Some((p, None)) => format!("{ctor}({p}) => {{ "),
                                None => format!("{ctor}(_) => {{ "),
                            }
                        };
                        if !has_return(&c.body) && m.args.len() == 1 {
                            let t = match n.as_str() {
                                "map_err" => Some(format!("(match {recv} {{ Ok(__v) => Ok(__v), {}Err({body}) }} }})", bind("Err"))),
                                "ok_or_else" => Some(format!("(match {recv} {{ Some(__v) => Ok(__v), None => Err({body}) }})")),
                                "map" if is_resultish(&m.receiver, self.src) || next_is_map_err(self.src, rng(m).end) => Some(format!("(match {recv} {{ {}Ok({body}) }} Err(__e) => Err(__e) }})", bind("Ok"))),
                                "map" if !iterish(&m.receiver) && mentions(&c.body, &self.mutref) => Some(format!("(match {recv} {{ {}Some({body}) }} None => None }})", bind("Some"))),
                                "and_then" if !iterish(&m.receiver) && mentions(&c.body, &self.mutref) => Some(format!("(match {recv} {{ {}{body} }} None => None }})", bind("Some"))),
                                "unwrap_or_else" if c.inputs.is_empty() => Some(format!("(match {recv} {{ Some(__v) => __v, None => {body} }})")),
                                _ => None,
                            };
                            if let Some(t) = t {
                                self.edits.push((rng(m), t));
                                return;
                            }
                        }
                    }
                }
            }
            _ => (),
        }
        visit::visit_expr(self, e);
    }
}

fn next_is_map_err(src: &str, end: usize) -> bool {
    src[end..].trim_start().starts_with(".map_err")
}
fn is_resultish(e: &Expr, _src: &str) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n == "map_err" || n == "parse" || n == "ok_or" || n == "ok_or_else"
        }
        Expr::Paren(p) => is_resultish(&p.expr, _src),
        _ => false,
    }
}

fn returns_result(sig: &Signature) -> bool {
    match &sig.output {
        ReturnType::Type(_, t) => match &**t {
            Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "Result"),
            _ => false,
        },
        _ => false,
    }
}

fn mutrefs(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.ty {
                Type::Reference(r) if r.mutability.is_some() => Some(t.pat.to_token_stream().to_string()),
                _ => None,
            },
            FnArg::Receiver(r) if r.mutability.is_some() => Some("self".to_string()),
            _ => None,
        })
        .collect()
}

// ---------------------------------------------------------------- phase 4: renames, paths, attributes
struct Ren<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    modules: &'a BTreeSet<String>,
    iters: BTreeMap<String, String>,
}
/// the T of a bound Iterator<Item = T>
fn iter_item(src: &str, b: &TypeParamBound) -> Option<String> {
    if let TypeParamBound::Trait(t) = b {
        let last = t.path.segments.last()?;
        if matches!(last.ident.to_string().as_str(), "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator") {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                for g in &a.args {
                    if let GenericArgument::AssocType(x) = g {
                        if x.ident == "Item" {
                            return Some(txt(src, &x.ty).to_string());
                        }
                    }
                }
            }
        }
    }
    None
}
impl<'a, 'ast> Visit<'ast> for Ren<'a> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        self.edits.push((rng(a), String::new()));
    }
    fn visit_visibility(&mut self, v: &'ast Visibility) {
        if !matches!(v, Visibility::Inherited) {
            self.edits.push((rng(v), String::new()));
        }
    }
    fn visit_item_macro(&mut self, _: &'ast ItemMacro) {}
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if n == "map" && m.args.len() == 1 {
            if let Expr::Path(p) = &m.args[0] {
                if compact(txt(self.src, p)) == "ToString::to_string" {
                    let end = m.paren_token.span.close().byte_range().end;
                    self.edits.push((m.method.span().byte_range().start..end, "map_to_string_v()".into()));
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        if n == "filter" && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                let p = c.inputs.first().map(|p| compact(txt(self.src, p))).unwrap_or_default();
                if compact(txt(self.src, &*c.body)) == format!("!{p}.is_empty()") {
                    let end = m.paren_token.span.close().byte_range().end;
                    self.edits.push((m.method.span().byte_range().start..end, "filter_nonempty_v()".into()));
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        if RENAME.contains(&n.as_str()) {
            self.edits.push((rng(&m.method), format!("{n}_v")));
        }
        // eta-expand function paths passed to adaptors
        if matches!(n.as_str(), "map" | "filter" | "filter_map" | "flat_map" | "any" | "all" | "map_err" | "and_then" | "for_each" | "retain" | "find" | "position" | "find_map" | "map_or") {
            if let Some(Expr::Path(p)) = m.args.last() {
                // a method of str given by its path
                let segs = &p.path.segments;
                if segs.len() == 2 && (segs[0].ident == "str" || segs[0].ident == "String") && segs[1].ident != "from" {
                    let mn = segs[1].ident.to_string();
                    let targs = txt(self.src, &segs[1].arguments);
                    let mn = if RENAME.contains(&mn.as_str()) { format!("{mn}_v") } else { mn };
                    self.edits.push((rng(p), format!("|__x| __x.{mn}{targs}()")));
                    self.visit_expr(&m.receiver);
                    return;
                }
                self.edits.push((rng(p), format!("|__x| {}(__x)", fix_path(txt(self.src, p)))));
                self.visit_expr(&m.receiver);
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    // ==, != become calls of the shim with a contract (std's PartialEq impls on references and mixed string types have none)
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !plain_operand(&b.left) && !plain_operand(&b.right) {
            let (l, r, o) = (rng(&b.left), rng(&b.right), rng(&b.op));
            let ne = matches!(b.op, BinOp::Ne(_));
            self.edits.push((l.start..l.start, if ne { "(!veq(&(".into() } else { "veq(&(".into() }));
            self.edits.push((l.end..l.end, ")".into()));
            self.edits.push((o, ",".into()));
            self.edits.push((r.start..r.start, "&(".into()));
            self.edits.push((r.end..r.end, if ne { ")))".into() } else { "))".into() }));
        }
        visit::visit_expr_binary(self, b);
    }
    // x[a..b] becomes the shim with a contract (std's has none for str)
    fn visit_expr_index(&mut self, i: &'ast ExprIndex) {
        if let Expr::Range(r) = &*i.index {
            if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                let (e, b) = (rng(&i.expr), i.bracket_token.span);
                self.edits.push((e.start..e.start, "(*".into()));
                let open = b.open().byte_range();
                let close = b.close().byte_range();
                match (&r.start, &r.end) {
                    (Some(s), None) => {
                        self.edits.push((open.start..rng(&**s).start, ".cut_v(".into()));
                        self.edits.push((rng(&**s).end..close.end, ", None))".into()));
                        self.visit_expr(s);
                    }
                    (Some(s), Some(t)) => {
                        self.edits.push((open.start..rng(&**s).start, ".cut_v(".into()));
                        self.edits.push((rng(&**s).end..rng(&**t).start, ", Some(".into()));
                        self.edits.push((rng(&**t).end..close.end, ")))".into()));
                        self.visit_expr(s);
                        self.visit_expr(t);
                    }
                    (None, Some(t)) => {
                        self.edits.push((open.start..rng(&**t).start, ".cut_v(0, Some(".into()));
                        self.edits.push((rng(&**t).end..close.end, ")))".into()));
                        self.visit_expr(t);
                    }
                    (None, None) => self.edits.push((open.start..close.end, ".whole_v())".into())),
                }
                self.visit_expr(&i.expr);
                return;
            }
        }
        visit::visit_expr_index(self, i);
    }
    // every iterator type is the shim iterator
    fn visit_signature(&mut self, s: &'ast Signature) {
        let old = std::mem::take(&mut self.iters);
        for g in &s.generics.params {
            if let GenericParam::Type(t) = g {
                let mut bs: Vec<&TypeParamBound> = t.bounds.iter().collect();
                if let Some(w) = &s.generics.where_clause {
                    for p in &w.predicates {
                        if let WherePredicate::Type(pt) = p {
                            if compact(txt(self.src, &pt.bounded_ty)) == t.ident.to_string() {
                                bs.extend(pt.bounds.iter());
                            }
                        }
                    }
                }
                for b in bs {
                    if let Some(it) = iter_item(self.src, b) {
                        self.iters.insert(t.ident.to_string(), it);
                    }
                }
            }
        }
        if !self.iters.is_empty() && self.iters.len() == s.generics.params.len() {
            if let (Some(l), Some(g)) = (&s.generics.lt_token, &s.generics.gt_token) {
                self.edits.push((rng(l).start..rng(g).end, String::new()));
            }
            if let Some(w) = &s.generics.where_clause {
                self.edits.push((rng(w), String::new()));
            }
            for i in &s.inputs {
                self.visit_fn_arg(i);
            }
            self.visit_return_type(&s.output);
        } else {
            self.iters.clear();
            visit::visit_signature(self, s);
        }
        self.iters = old;
    }
    fn visit_type(&mut self, t: &'ast Type) {
        match t {
            Type::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap();
                let n = last.ident.to_string();
                if p.path.segments.len() == 1 && self.iters.contains_key(&n) {
                    self.edits.push((rng(t), format!("VIter<{}>", self.iters[&n])));
                    return;
                }
                if matches!(n.as_str(), "Peekable" | "IntoIter") {
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(GenericArgument::Type(inner)) = a.args.first() {
                            let it = txt(self.src, inner).to_string();
                            if n == "IntoIter" {
                                self.edits.push((rng(t), format!("VIter<{it}>")));
                                return;
                            }
                            // Peekable<I> is I
                            let r = rng(t);
                            let ri = rng(inner);
                            self.edits.push((r.start..ri.start, String::new()));
                            self.edits.push((ri.end..r.end, String::new()));
                            self.visit_type(inner);
                            return;
                        }
                    }
                }
            }
            Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let Some(it) = iter_item(self.src, b) {
                        self.edits.push((rng(t), format!("VIter<{it}>")));
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_type(self, t);
    }
    fn visit_type_param_bound(&mut self, b: &'ast TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            if compact(txt(self.src, &t.path)) == "PartialEq" {
                self.edits.push((rng(&t.path), "VEq".into()));
                return;
            }
        }
        visit::visit_type_param_bound(self, b);
    }
    fn visit_path(&mut self, p: &'ast Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let plain: bool = p.segments.iter().all(|s| s.arguments.is_none());
        if segs.len() >= 2 {
            let joined = segs.join("::");
            let rep = match joined.as_str() {
                "fmt::Result" | "std::fmt::Result" => Some("VFmtResult"),
                "fmt::Formatter" | "std::fmt::Formatter" => Some("VFmt"),
                "fmt::Display" | "std::fmt::Display" => Some("VDisplay"),
                "url::ParseError" | "self::url::ParseError" => Some("UrlParseError"),
                "url::Host" => Some("Host"),
                "ToString::to_string" => Some("VDisplay::to_string_v"),
                "String::from" => Some("vstring"),
                _ => None,
            };
            if let Some(r) = rep {
                // fmt::Formatter<'_>
                self.edits.push((rng(p), r.to_string()));
                return;
            }
            let last = segs.last().unwrap().clone();
            if matches!(last.as_str(), "try_from" | "from_str" | "from_str_radix") {
                self.edits.push((rng(&p.segments.last().unwrap().ident), format!("{last}_v")));
            }
            // strip crate-module prefixes (all modules are flattened into one)
            let mut k = 0;
            while k + 1 < segs.len() && (segs[k] == "crate" || segs[k] == "self" || segs[k] == "super" || (self.modules.contains(&segs[k]) && !(segs[k] == "error" && segs[k + 1] == "Error"))) {
                k += 1;
            }
            if k > 0 {
                let start = p.segments[0].ident.span().byte_range().start;
                let end = p.segments[k].ident.span().byte_range().start;
                self.edits.push((start..end, String::new()));
            }
        } else if plain && segs.len() == 1 {
            let rep = match segs[0].as_str() {
                "FromStr" => Some("VFromStr"),
                "ToString" => Some("VDisplay"),
                "Display" => Some("VDisplay"),
                "Formatter" => Some("VFmt"),
                _ => None,
            };
            if let Some(r) = rep {
                self.edits.push((rng(p), r.to_string()));
                return;
            }
        } else if segs.len() == 1 && segs[0] == "TryFrom" {
            self.edits.push((rng(&p.segments[0].ident), "VTryFrom".into()));
        }
        visit::visit_path(self, p);
    }
    fn visit_impl_item_fn(&mut self, i: &'ast ImplItemFn) {
        let n = i.sig.ident.to_string();
        if n == "try_from" || n == "from_str" {
            self.edits.push((rng(&i.sig.ident), format!("{n}_v")));
        }
        visit::visit_impl_item_fn(self, i);
    }
}
fn plain_operand(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)),
        Expr::Paren(p) => plain_operand(&p.expr),
        Expr::Unary(u) => plain_operand(&u.expr),
        Expr::Cast(_) => true,
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty(),
        _ => false,
    }
}
fn fix_path(p: &str) -> String {
    let c: String = p.split_whitespace().collect();
    match c.as_str() {
        "ToString::to_string" => "VDisplay::to_string_v".into(),
        "String::from" => "vstring".into(),
        _ => c,
    }
}

// ---------------------------------------------------------------- phase 5: markers
struct Mark<'a> {
    src: &'a str,
    ins: Vec<(usize, u32, String)>, // position, order, text
    loops: usize,
    closures: usize,
    kmatches: usize,
    tailmatch: Vec<(usize, String)>,
    depth: usize,
}
impl<'a> Mark<'a> {
    fn at(&mut self, p: usize, s: String) {
        let o = self.ins.len() as u32;
        self.ins.push((p, o, s));
    }
}
impl<'a, 'ast> Visit<'ast> for Mark<'a> {
    fn visit_item_macro(&mut self, _: &'ast ItemMacro) {}
    fn visit_item_fn(&mut self, i: &'ast ItemFn) {
        self.fnbody(&i.block);
    }
    fn visit_impl_item_fn(&mut self, i: &'ast ImplItemFn) {
        self.fnbody(&i.block);
    }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        let k = self.loops;
        self.loops += 1;
        // name of the shim iterator if this is a desugared `for`
        self.at(rng(&l.loop_token).end, format!("/*@L{k}*/"));
        self.loopbody(k, &l.body);
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        let k = self.loops;
        self.loops += 1;
        self.visit_expr(&l.cond);
        self.at(rng(&l.body).start, format!("/*@L{k}*/"));
        self.loopbody(k, &l.body);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        let k = self.loops;
        self.loops += 1;
        self.at(rng(&l.body).start, format!("/*@L{k}*/"));
        self.loopbody(k, &l.body);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let k = self.closures;
        self.closures += 1;
        let start = rng(c).start;
        self.at(start, format!("/*@C{k}<*/"));
        self.at(rng(&*c.body).start, format!("/*@C{k}:*/"));
        visit::visit_expr(self, &c.body);
        self.at(rng(&*c.body).end, format!("/*@C{k}>*/"));
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        fn strpat(p: &Pat) -> bool {
            match p {
                Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
                Pat::Or(o) => o.cases.iter().any(strpat),
                _ => false,
            }
        }
        fn diverges(e: &Expr) -> bool {
            match e {
                Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
                Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, _)) if diverges(e)),
                _ => false,
            }
        }
        if !m.arms.iter().any(|a| strpat(&a.pat)) {
            visit::visit_expr_match(self, m);
            return;
        }
        // T: the match is the value of the function; L<loop>: it is the last statement of that loop's body
        let k = self.kmatches;
        let pos = match self.tailmatch.iter().find(|(p, _)| *p == rng(m).start) {
            Some((_, t)) => t.clone(),
            None => String::new(),
        };
        self.kmatches += 1;
        self.visit_expr(&m.expr);
        for a in &m.arms {
            let mark = !diverges(&a.body);
            if mark {
                self.at(rng(&*a.body).start, format!("/*@K{k}{pos}<*/"));
            }
            self.visit_expr(&a.body);
            if mark {
                self.at(rng(&*a.body).end, format!("/*@K{k}{pos}>*/"));
            }
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        visit::visit_stmt(self, s);
        // if C { v.push(E); }
        if let Stmt::Expr(Expr::If(i), _) = s {
            if let (None, [Stmt::Expr(Expr::MethodCall(m), Some(_))]) = (&i.else_branch, &i.then_branch.stmts[..]) {
                if m.method == "push" {
                    self.at(rng(s).end, "/*@P*/".into());
                }
            }
        }
    }
    fn visit_local(&mut self, l: &'ast Local) {
        visit::visit_local(self, l);
        let name = match &l.pat {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => return,
            },
            _ => return,
        };
        if name.starts_with("__") {
            return;
        }
        self.at(rng(l).end, format!("/*@A:{name}*/"));
    }
}
impl<'a> Mark<'a> {
    fn loopbody(&mut self, k: usize, b: &Block) {
        let r = rng(b);
        self.at(r.start + 1, format!("/*@LB{k}*/"));
        self.depth += 1;
        self.tail(b, format!("L{k}"));
        for s in &b.stmts {
            self.visit_stmt(s);
        }
        self.depth -= 1;
        self.at(r.end - 1, format!("/*@LE{k}*/"));
    }
    // the match that ends a block, also through if/else and blocks in tail position
    fn tail(&mut self, b: &Block, what: String) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail_expr(e, what);
        } else if let (Some(Stmt::Expr(e, Some(_))), true) = (b.stmts.last(), what.starts_with('L')) {
            self.tail_expr(e, what);
        }
    }
    fn tail_expr(&mut self, e: &Expr, what: String) {
        match e {
            Expr::Match(m) => {
                for a in &m.arms {
                    self.tail_expr(&a.body, what.clone());
                }
                self.tailmatch.push((rng(m).start, what))
            }
            Expr::If(i) => {
                self.tail(&i.then_branch, what.clone());
                if let Some((_, e)) = &i.else_branch {
                    self.tail_expr(e, what);
                }
            }
            Expr::Block(b) => self.tail(&b.block, what),
            Expr::Paren(p) => self.tail_expr(&p.expr, what),
            _ => (),
        }
    }
    fn fnbody(&mut self, b: &Block) {
        self.tail(b, "T".into());
        self.loops = 0;
        self.closures = 0;
        self.kmatches = 0;
        let r = rng(b);
        self.at(r.start + 1, "/*@B*/".into());
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(_, None) = s {
                    self.at(rng(s).start, "/*@T*/".into());
                }
            }
            self.visit_stmt(s);
        }
        self.at(r.end - 1, "/*@E*/".into());
    }
}

// ---------------------------------------------------------------- items
#[derive(Default)]
struct Info {
    calls: BTreeSet<String>,
    lets: Vec<String>,
    unsupported: BTreeSet<String>,
    closures: Vec<Value>,
    loops: Vec<Value>,
}
impl<'ast> Visit<'ast> for Info {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.calls.insert(segs.join("::"));
                }
            }
            Expr::MethodCall(m) => {
                self.calls.insert(format!(".{}", m.method));
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                self.unsupported.insert(format!("{n}!"));
            }
            Expr::Unsafe(_) => {
                self.unsupported.insert("unsafe".into());
            }
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) => {
                self.unsupported.insert("async".into());
            }
            Expr::Loop(_) => self.loops.push(json!("loop")),
            Expr::While(_) => self.loops.push(json!("while")),
            Expr::ForLoop(_) => self.loops.push(json!("for")),
            Expr::Closure(c) => {
                let ps: Vec<Value> = c.inputs.iter().map(|p| json!(p.to_token_stream().to_string())).collect();
                self.closures.push(json!({"params": ps, "body": c.body.to_token_stream().to_string()}));
            }
            _ => (),
        }
        visit::visit_expr(self, e);
    }
    fn visit_local(&mut self, l: &'ast Local) {
        struct P<'b>(&'b mut Vec<String>);
        impl<'b, 'c> Visit<'c> for P<'b> {
            fn visit_pat_ident(&mut self, i: &'c PatIdent) {
                let n = i.ident.to_string();
                if !n.starts_with("__") {
                    self.0.push(n);
                }
            }
        }
        P(&mut self.lets).visit_pat(&l.pat);
        visit::visit_local(self, l);
    }
    fn visit_item(&mut self, i: &'ast Item) {
        if matches!(i, Item::Fn(_)) {
            self.unsupported.insert("nested fn".into());
        }
        visit::visit_item(self, i);
    }
}

#[allow(dead_code)]
fn compact(s: &str) -> String {
    // normal form of a type or path text: no blanks except between words
    let mut out = String::new();
    let mut prev_word = false;
    let mut blank = false;
    for c in s.chars() {
        if c.is_whitespace() {
            blank = true;
            continue;
        }
        let w = c.is_alphanumeric() || c == '_' || c == '\'';
        if blank && prev_word && w {
            out.push(' ');
        }
        out.push(c);
        prev_word = w;
        blank = false;
    }
    out
}

fn sig_json(src: &str, sig: &Signature) -> Value {
    let inputs: Vec<Value> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"self": true, "text": txt(src, r)}),
            FnArg::Typed(t) => json!({"pat": txt(src, &*t.pat), "ty": txt(src, &*t.ty)}),
        })
        .collect();
    let out = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(txt(src, &**t)),
    };
    json!({
        "name": sig.ident.to_string(),
        "generics": if sig.generics.params.is_empty() { String::new() } else { format!("<{}>", txt(src, &sig.generics.params)) },
        "where": sig.generics.where_clause.as_ref().map(|w| txt(src, w).to_string()).unwrap_or_default(),
        "inputs": inputs, "output": out,
        "const": sig.constness.is_some(), "unsafe": sig.unsafety.is_some(),
    })
}

fn fn_json(src: &str, id: &str, sig: &Signature, block: &Block) -> Value {
    let mut inf = Info::default();
    inf.visit_block(block);
    json!({"id": id, "sig": sig_json(src, sig), "body": txt(src, block), "calls": inf.calls, "lets": inf.lets,
           "unsupported": inf.unsupported, "closures": inf.closures, "loops": inf.loops})
}

fn orig_lines(file: &File, out: &mut BTreeMap<String, (usize, usize)>, src: &str) {
    for it in &file.items {
        match it {
            Item::Fn(f) => {
                out.insert(f.sig.ident.to_string(), (f.sig.span().start().line, f.block.span().end().line));
            }
            Item::Impl(i) if !is_cfg_dropped(&i.attrs) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        out.insert(format!("{}::{}", impl_id(src, i), f.sig.ident), (f.sig.span().start().line, f.block.span().end().line));
                    }
                }
            }
            _ => (),
        }
    }
}
fn impl_id(src: &str, i: &ItemImpl) -> String {
    let ty = compact(txt(src, &*i.self_ty));
    match &i.trait_ {
        Some((_, p, _)) => {
            let mut t = compact(txt(src, p));
            for (a, b) in [("VDisplay", "fmt::Display"), ("VFromStr", "FromStr"), ("VTryFrom", "TryFrom")] {
                if t.starts_with(a) {
                    t = t.replacen(a, b, 1);
                }
            }
            format!("<{ty} as {t}>")
        }
        None => ty,
    }
}
fn norm_name(n: &str) -> String {
    match n {
        "try_from_v" => "try_from".into(),
        "from_str_v" => "from_str".into(),
        _ => n.into(),
    }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.to_string().split(',') {
                    v.push(t.trim().to_string());
                }
            }
        }
    }
    v
}

fn main() {
    let dir = std::env::args().nth(1).expect("src dir");
    let mut notes = BTreeSet::new();
    let mut dropped: BTreeMap<String, usize> = BTreeMap::new();
    let mut items: Vec<Value> = vec![];
    let mut files: Vec<(String, String)> = vec![];
    let mut queue = vec![("lib".to_string(), format!("{dir}/lib.rs"))];
    let mut modules = BTreeSet::new();
    while let Some((m, path)) = queue.pop() {
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                notes.insert(format!("module {m}: {path}: {e}"));
                continue;
            }
        };
        match parse(&text) {
            Ok(f) => {
                for it in &f.items {
                    if let Item::Mod(md) = it {
                        if !is_cfg_dropped(&md.attrs) && md.content.is_none() {
                            let n = md.ident.to_string();
                            modules.insert(n.clone());
                            let p = format!("{dir}/{n}.rs");
                            let p = if std::path::Path::new(&p).exists() { p } else { format!("{dir}/{n}/mod.rs") };
                            queue.push((n, p));
                        } else if !is_cfg_dropped(&md.attrs) {
                            notes.insert(format!("inline module {}", md.ident));
                        }
                    }
                }
            }
            Err(e) => {
                eprintln!("parse error in {path}: {e}");
                std::process::exit(3);
            }
        }
        files.push((m, text));
    }
    files.sort();
    // macro definitions
    let mut macros = BTreeMap::new();
    for (_, text) in &files {
        let f = parse(text).unwrap();
        for it in &f.items {
            if let Item::Macro(m) = it {
                if m.mac.path.is_ident("macro_rules") {
                    match macro_def(text, m) {
                        Ok((n, d)) => {
                            macros.insert(n, d);
                        }
                        Err(e) => {
                            notes.insert(e);
                        }
                    }
                }
            }
        }
    }
    for (module, text) in &files {
        let f = parse(text).unwrap();
        let mut lines = BTreeMap::new();
        orig_lines(&f, &mut lines, text);
        let mut der: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut edits: Vec<Edit> = vec![];
        for it in &f.items {
            let (attrs, drop) = match it {
                Item::Use(_) | Item::ExternCrate(_) | Item::Mod(_) | Item::Macro(_) => (vec![], true),
                Item::Impl(i) => (i.attrs.clone(), is_cfg_dropped(&i.attrs)),
                Item::Fn(i) => (i.attrs.clone(), is_cfg_dropped(&i.attrs)),
                Item::Struct(i) => {
                    der.insert(i.ident.to_string(), derives(&i.attrs));
                    (i.attrs.clone(), is_cfg_dropped(&i.attrs))
                }
                Item::Enum(i) => {
                    der.insert(i.ident.to_string(), derives(&i.attrs));
                    (i.attrs.clone(), is_cfg_dropped(&i.attrs))
                }
                _ => (vec![], false),
            };
            let _ = attrs;
            if drop {
                edits.push((rng(it), String::new()));
            }
        }
        for a in &f.attrs {
            edits.push((rng(a), String::new()));
        }
        let mut t = apply(text, edits);
        for phase in [1u8, 3u8] {
            for round in 0.. {
                let f = match parse(&t) {
                    Ok(f) => f,
                    Err(e) => {
                        eprintln!("phase {phase} {module}: {e}");
                        std::process::exit(3);
                    }
                };
                let mut c = Ctx { src: &t, edits: vec![], macros: &macros, notes: &mut notes, dropped: &mut dropped, phase, mutref: vec![], result_fn: false };
                c.visit_file(&f);
                let e = c.edits;
                if e.is_empty() || round > 40 {
                    break;
                }
                let nt = apply(&t, e);
                if nt == t {
                    break;
                }
                t = nt;
            }
        }
        let f = match parse(&t) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("phase 4 {module}: {e}");
                std::process::exit(3);
            }
        };
        let mut r = Ren { src: &t, edits: vec![], modules: &modules, iters: BTreeMap::new() };
        r.visit_file(&f);
        let t = apply_all(&t, r.edits);
        let f = match parse(&t) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("phase 5 {module}: {e}");
                std::process::exit(3);
            }
        };
        let mut m = Mark { src: &t, ins: vec![], loops: 0, closures: 0, kmatches: 0, tailmatch: vec![], depth: 0 };
        m.visit_file(&f);
        let _ = m.src;
        let mut ins = m.ins;
        ins.sort();
        let mut out = String::new();
        let mut pos = 0;
        for (p, _, s) in ins {
            out.push_str(&t[pos..p]);
            out.push_str(&s);
            pos = p;
        }
        out.push_str(&t[pos..]);
        let t = out;
        let f = match parse(&t) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("phase 6 {module}: {e}");
                std::process::exit(3);
            }
        };
        for it in &f.items {
            match it {
                Item::Fn(i) => {
                    let id = i.sig.ident.to_string();
                    let mut v = fn_json(&t, &id, &i.sig, &i.block);
                    v["kind"] = json!("fn");
                    v["module"] = json!(module);
                    v["lines"] = json!(lines.get(&id));
                    items.push(v);
                }
                Item::Impl(i) => {
                    let iid = impl_id(&t, i);
                    let gen = if i.generics.params.is_empty() { String::new() } else { format!("<{}>", txt(&t, &i.generics.params)) };
                    let tr = i.trait_.as_ref().map(|x| txt(&t, &x.1).to_string());
                    let mut fns = vec![];
                    let mut assoc = vec![];
                    for x in &i.items {
                        match x {
                            ImplItem::Fn(fnn) => {
                                let id = format!("{iid}::{}", norm_name(&fnn.sig.ident.to_string()));
                                let mut v = fn_json(&t, &id, &fnn.sig, &fnn.block);
                                v["module"] = json!(module);
                                v["lines"] = json!(lines.get(&id));
                                fns.push(v);
                            }
                            other => assoc.push(txt(&t, other).to_string()),
                        }
                    }
                    items.push(json!({"kind":"impl","id":iid,"module":module,"generics":gen,"trait":tr,"self_ty":txt(&t,&*i.self_ty),
                        "where": i.generics.where_clause.as_ref().map(|w| txt(&t, w).to_string()).unwrap_or_default(),
                        "assoc":assoc,"fns":fns}));
                }
                Item::Struct(i) => {
                    let fields: Vec<Value> = i.fields.iter().map(|x| json!([x.ident.as_ref().map(|y| y.to_string()), compact(txt(&t, &x.ty))])).collect();
                    items.push(json!({"kind":"struct","id":i.ident.to_string(),"module":module,"text":txt(&t,i),"derives":der.get(&i.ident.to_string()),"fields":fields,"generics":i.generics.params.len()}))
                }
                Item::Enum(i) => {
                    let vs: Vec<Value> = i
                        .variants
                        .iter()
                        .map(|v| json!({"name": v.ident.to_string(), "fields": v.fields.iter().map(|x| json!([x.ident.as_ref().map(|y| y.to_string()), compact(txt(&t, &x.ty))])).collect::<Vec<_>>()}))
                        .collect();
                    items.push(json!({"kind":"enum","id":i.ident.to_string(),"module":module,"text":txt(&t,i),"derives":der.get(&i.ident.to_string()),"variants":vs,"generics":i.generics.params.len()}))
                }
                Item::Const(i) => items.push(json!({"kind":"const","id":i.ident.to_string(),"module":module,"text":txt(&t,i)})),
                Item::Static(i) => items.push(json!({"kind":"static","id":i.ident.to_string(),"module":module,"text":txt(&t,i)})),
                Item::Trait(i) => items.push(json!({"kind":"trait","id":i.ident.to_string(),"module":module,"text":txt(&t,i)})),
                Item::Type(i) => items.push(json!({"kind":"type","id":i.ident.to_string(),"module":module,"text":txt(&t,i)})),
                _ => {
                    notes.insert(format!("item not extracted: {}", &txt(&t, it).chars().take(60).collect::<String>()));
                }
            }
        }
    }
    println!("{}", serde_json::to_string(&json!({"items": items, "notes": notes, "dropped": dropped})).unwrap());
}

/// rename edits never overlap except inside attributes (dropped whole)
fn apply_all(t: &str, e: Vec<Edit>) -> String {
    apply(t, e)
}
