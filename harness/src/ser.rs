//! C17: the JSON form of a session or parse error against its Debug form, which names every field and value as well.
use crate::eval::{Bad, Res};
use serde_json::Value;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::parse_sdp;

#[derive(Debug, PartialEq)]
enum D { Str(String), Bare(String), List(Vec<D>), Call(String, Vec<D>), Rec(String, Vec<(String, D)>) }

fn bad(s: String) -> Res { Err(Bad { msg: s, kf: None }) }

struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == ' ' { self.i += 1 } }
    fn at(&self) -> char { *self.s.get(self.i).unwrap_or(&'\0') }
    fn val(&mut self) -> D {
        self.ws();
        match self.at() {
            '"' => { self.i += 1; D::Str(self.string()) }
            '[' => { self.i += 1; D::List(self.list(']')) }
            '(' => { self.i += 1; D::List(self.list(')')) }
            _ => {
                let a = self.i;
                while self.i < self.s.len() && !matches!(self.at(), ',' | ')' | ']' | '}' | ' ' | '(' | '{') { self.i += 1 }
                let n: String = self.s[a..self.i].iter().collect();
                if self.at() == '(' { self.i += 1; return D::Call(n, self.list(')')) }
                let k = self.i; self.ws();
                if self.at() == '{' { self.i += 1; return D::Rec(n, self.fields()) }
                self.i = k; D::Bare(n)
            }
        }
    }
    fn string(&mut self) -> String {
        let mut o = String::new();
        while self.i < self.s.len() && self.at() != '"' {
            if self.at() == '\\' {
                self.i += 1;
                match self.at() {
                    'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), '0' => o.push('\0'),
                    'u' => { let a = self.i + 2; while self.at() != '}' { self.i += 1 } let h: String = self.s[a..self.i].iter().collect(); o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?')) }
                    c => o.push(c),
                }
            } else { o.push(self.at()) }
            self.i += 1;
        }
        self.i += 1; o
    }
    fn list(&mut self, end: char) -> Vec<D> {
        let mut v = vec![];
        loop { self.ws(); if self.at() == end || self.i >= self.s.len() { self.i += 1; return v } v.push(self.val()); self.ws(); if self.at() == ',' { self.i += 1 } }
    }
    fn fields(&mut self) -> Vec<(String, D)> {
        let mut v = vec![];
        loop {
            self.ws(); if self.at() == '}' || self.i >= self.s.len() { self.i += 1; return v }
            let a = self.i; while self.i < self.s.len() && self.at() != ':' { self.i += 1 }
            let n: String = self.s[a..self.i].iter().collect(); self.i += 1;
            v.push((n, self.val())); self.ws(); if self.at() == ',' { self.i += 1 }
        }
    }
}

fn num(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) }
/// the first place where the JSON form lacks or changes something of the Debug form
fn diff(d: &D, j: &Value, at: &str) -> Option<String> {
    let no = || Some(format!("{at}: {d:?} became {j}").chars().take(600).collect::<String>());
    match (d, j) {
        (D::Str(s), Value::String(t)) => if s == t { None } else { no() },
        (D::Bare(s), Value::Null) => if matches!(s.as_str(), "None" | "NaN" | "inf" | "-inf") { None } else { no() },
        (D::Bare(s), Value::Bool(b)) => if *s == b.to_string() { None } else { no() },
        (D::Bare(s), Value::Number(n)) => if *s == n.to_string() || matches!((s.parse::<f64>(), n.as_f64()), (Ok(a), Some(b)) if num(a, b) && (a.abs() < 9e15 || s.contains(&['.', 'e'][..]))) { None } else { no() },
        (D::Bare(s), Value::String(t)) => if s == t { None } else { no() },
        (D::List(v), Value::Array(w)) => list(v, w, at).unwrap_or_else(no),
        (D::Call(n, v), _) if n == "Some" && v.len() == 1 => diff(&v[0], j, at),
        (D::Call(n, v), Value::Object(o)) if o.len() == 1 && o.contains_key(n) => {
            let at = format!("{at}/{n}");
            match (v.len(), &o[n]) { (1, x) => diff(&v[0], x, &at), (_, Value::Array(w)) => list(v, w, &at).unwrap_or_else(no), _ => no() }
        }
        (D::Rec(n, f), Value::Object(o)) if matches!(n.as_str(), "Line" | "Unsupported" | "Sequence") && f.iter().any(|x| x.0 == "line_number") => {
            if o.get("type").and_then(|t| t.as_str()) != Some(n) || !o.contains_key("message") { return no() }
            fields(f.iter().filter(|x| x.0 != "error"), o, &format!("{at}/{n}"))
        }
        (D::Rec(n, f), Value::Object(o)) => match o.get(n) { Some(Value::Object(i)) if o.len() == 1 => fields(f.iter(), i, &format!("{at}/{n}")), _ => fields(f.iter(), o, at) },
        _ => no(),
    }
}
fn list(v: &[D], w: &[Value], at: &str) -> Option<Option<String>> {
    if v.len() != w.len() { return None }
    Some(v.iter().zip(w).enumerate().find_map(|(i, (a, b))| diff(a, b, &format!("{at}[{i}]"))))
}
fn fields<'a>(mut f: impl Iterator<Item = &'a (String, D)>, o: &serde_json::Map<String, Value>, at: &str) -> Option<String> {
    f.find_map(|(n, d)| match o.get(n) { None => Some(format!("{at}: field {n} is missing")), Some(j) => diff(d, j, &format!("{at}.{n}")) })
}

fn compare<T: std::fmt::Debug + serde::Serialize>(x: &T) -> Res {
    let dbg: Vec<char> = format!("{x:?}").chars().collect();
    let text = match serde_json::to_string(x) { Ok(t) => t, Err(e) => return bad(format!("does not serialize: {e}")) };
    let j: Value = match serde_json::from_str(&text) { Ok(j) => j, Err(e) => return bad(format!("is no JSON: {e}")) };
    let d = P { s: &dbg, i: 0 }.val();
    match diff(&d, &j, "") { None => Ok(true), Some(m) => bad(m) }
}
pub fn ser(text: &str, strict: bool) -> Res {
    match parse_sdp(text, strict) {
        Ok(s) => compare(&s),
        Err(e) => {
            compare(&e)?;
            let j: Value = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();
            let msg = match &e { SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => error.to_string(), SdpParserError::Sequence { message, .. } => message.clone() };
            if j.get("message").and_then(|m| m.as_str()) != Some(&msg) { return bad(format!("message of {e:?} became {}", j["message"])) }
            Ok(true)
        }
    }
}
