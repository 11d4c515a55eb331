//! ser FILE : FILE is the crate as rustc prints it after macro and derive expansion with the feature "serialize".
//! Prints JSON: the types that have a Serialize implementation (with the specification "every field with its value"
//! generated from the fields of the definition) and the bodies of these implementations, path prefixes dropped.
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

fn rng(s: Span) -> Range<usize> { s.byte_range() }
fn last(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

struct Types<'a> { mods: BTreeSet<String>, defs: BTreeMap<String, Vec<&'a Item>>, impls: Vec<&'a ItemImpl> }
impl<'a> Types<'a> {
    fn items(&mut self, items: &'a [Item]) {
        for it in items {
            match it {
                Item::Mod(m) => { self.mods.insert(m.ident.to_string()); if let Some((_, c)) = &m.content { self.items(c) } }
                Item::Struct(s) => self.defs.entry(s.ident.to_string()).or_default().push(it),
                Item::Enum(s) => self.defs.entry(s.ident.to_string()).or_default().push(it),
                Item::Const(c) => if let Expr::Block(b) = &*c.expr {
                    for s in &b.block.stmts { if let Stmt::Item(Item::Impl(i)) = s { self.imp(i) } }
                },
                Item::Impl(i) => self.imp(i),
                _ => {}
            }
        }
    }
    fn imp(&mut self, i: &'a ItemImpl) {
        if let Some((_, p, _)) = &i.trait_ { if last(p) == "Serialize" { self.impls.push(i) } }
    }
}

struct Rw<'a> { src: &'a str, mods: &'a BTreeSet<String>, edits: Vec<(Range<usize>, String)>, keys: Vec<String> }
impl<'a, 'b> Visit<'b> for Rw<'a> {
    fn visit_lit_str(&mut self, l: &'b LitStr) { let t = l.token().to_string(); if !self.keys.contains(&t) { self.keys.push(t) } }
    fn visit_path(&mut self, p: &'b Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut k = 0;
        while k + 1 < segs.len() && (matches!(segs[k].as_str(), "_serde" | "serde" | "ser" | "crate" | "self" | "super" | "alloc" | "string" | "vec") || segs[k].starts_with("__private") || self.mods.contains(&segs[k])) { k += 1 }
        if k > 0 || p.leading_colon.is_some() {
            let keep = p.segments.iter().nth(k).unwrap();
            if k > 0 || (p.leading_colon.is_some() && segs.len() == 1) { self.edits.push((rng(p.span()).start..rng(keep.span()).start, String::new())) }
        }
        visit::visit_path(self, p)
    }
    fn visit_expr_call(&mut self, c: &'b ExprCall) {
        if let Expr::Path(p) = &*c.func { if last(&p.path) == "must_use" && c.args.len() == 1 {
            let mut f = FindFmt(None); f.visit_expr(&c.args[0]);
            if let Some(m) = f.0 { self.fmt(rng(c.span()), &m); return }
        } }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
        if matches!(c.method.to_string().as_str(), "to_string" | "is_empty" | "is_none" | "is_some" | "as_str" | "clone" | "len") { self.edits.push((rng(c.method.span()), format!("{}_v", c.method))) }
        visit::visit_expr_method_call(self, c)
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if last(&m.path) == "format_args" { self.fmt(rng(m.span()), m) }
    }
}
impl<'a> Rw<'a> {
    fn fmt(&mut self, at: Range<usize>, m: &Macro) {
        let args: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> = m.parse_body_with(punctuated::Punctuated::parse_terminated);
        let t = match args {
            Ok(a) if a.len() == 2 && matches!(&a[0], Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value() == "{0}" || s.value() == "{}") => format!("fmt1_v(&({}))", &self.src[rng(a[1].span())]),
            Ok(a) if a.len() == 1 && matches!(&a[0], Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if !s.value().contains('{')) => format!("str_v({})", &self.src[rng(a[0].span())]),
            _ => "fmt_any_v()".to_string(),
        };
        self.edits.push((at, t));
    }
}
struct FindFmt(Option<Macro>);
impl<'b> Visit<'b> for FindFmt { fn visit_macro(&mut self, m: &'b Macro) { if last(&m.path) == "format_args" { self.0 = Some(m.clone()) } } }

fn apply(src: &str, r: Range<usize>, mut e: Vec<(Range<usize>, String)>) -> String {
    e.sort_by_key(|x| (x.0.start, std::cmp::Reverse(x.0.end)));
    let (mut out, mut at) = (String::new(), r.start);
    for (g, t) in e { if g.start < at || g.end > r.end { continue } out += &src[at..g.start]; out += &t; at = g.end }
    out + &src[at..r.end]
}
fn text(src: &str, mods: &BTreeSet<String>, n: &Type) -> String {
    let mut w = Rw { src, mods, edits: vec![], keys: vec![] };
    w.visit_type(n);
    // type paths lose every prefix: types are emitted side by side
    let mut x = TyRw(vec![]); x.visit_type(n);
    apply(src, rng(n.span()), x.0)
}
struct TyRw(Vec<(Range<usize>, String)>);
impl<'b> Visit<'b> for TyRw {
    fn visit_path(&mut self, p: &'b Path) {
        if p.segments.len() > 1 || p.leading_colon.is_some() { self.0.push((rng(p.span()).start..rng(p.segments.last().unwrap().span()).start, String::new())) }
        visit::visit_path(self, p)
    }
}
fn named(src: &str, mods: &BTreeSet<String>, f: &FieldsNamed, vis: bool) -> String {
    f.named.iter().map(|x| format!("    {}{}: {},\n", if vis { "pub " } else { "" }, x.ident.as_ref().unwrap(), text(src, mods, &x.ty))).collect()
}
fn map_of<'a>(it: impl Iterator<Item = (String, String)>) -> String {
    let mut s = "Map::<Seq<char>, SVal>::empty()".to_string();
    for (n, e) in it { s += &format!(".insert({:?}@, {e})", n.trim_start_matches("r#")) }
    s
}

fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("readable");
    let file: File = match parse_str(&src) { Ok(f) => f, Err(e) => { eprintln!("{e} at {:?}", e.span().start()); std::process::exit(2) } };
    let mut ts = Types { mods: BTreeSet::new(), defs: BTreeMap::new(), impls: vec![] };
    ts.items(&file.items);
    let mut types = vec![]; let mut impls = vec![]; let mut notes: Vec<String> = vec![];
    for i in &ts.impls {
        let name = match &*i.self_ty { Type::Path(p) => last(&p.path), _ => { notes.push("Serialize impl for a type that is no path".into()); continue } };
        if !i.generics.params.is_empty() { notes.push(format!("{name}: generic Serialize impl")); continue }
        let f = i.items.iter().find_map(|x| match x { ImplItem::Fn(f) if f.sig.ident == "serialize" => Some(f), _ => None });
        let Some(f) = f else { notes.push(format!("{name}: impl without serialize")); continue };
        let arg = f.sig.inputs.iter().nth(1).and_then(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => Some((p.ident.to_string(), p.mutability.is_some())), _ => None }, _ => None });
        let gen = f.sig.generics.params.iter().find_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).unwrap_or_default();
        let Some((arg, _)) = arg else { notes.push(format!("{name}: serializer parameter is no name")); continue };
        let mut w = Rw { src: &src, mods: &ts.mods, edits: vec![], keys: vec![] };
        w.visit_block(&f.block);
        let mut g = GenRw { name: gen, to: "S", out: vec![] }; g.visit_block(&f.block); w.edits.extend(g.out);
        impls.push(serde_json::json!({"for": name, "arg": arg, "body": apply(&src, rng(f.block.span()), w.edits), "keys": w.keys,
            "derived": i.attrs.iter().any(|a| a.path().is_ident("automatically_derived"))}));
    }
    for (name, ds) in &ts.defs {
        if ds.len() != 1 { notes.push(format!("{name}: defined more than once")); continue }
        let (attrs_ok, txt, spec) = match ds[0] {
            Item::Struct(s) if s.generics.params.is_empty() => match &s.fields {
                Fields::Named(f) => (true, format!("pub struct {name} {{\n{}}}\n", named(&src, &ts.mods, f, true)),
                    format!("mk_struct({})", map_of(f.named.iter().map(|x| { let n = x.ident.as_ref().unwrap().to_string(); (n.clone(), format!("self.{n}.sval()")) })))),
                Fields::Unnamed(f) if f.unnamed.len() == 1 => (true, format!("pub struct {name}(pub {});\n", text(&src, &ts.mods, &f.unnamed[0].ty)), "self.0.sval()".to_string()),
                _ => (false, String::new(), String::new()),
            },
            Item::Enum(e) if e.generics.params.is_empty() => {
                let mut t = format!("pub enum {name} {{\n"); let mut sp = "match self {\n".to_string();
                for v in &e.variants {
                    let n = v.ident.to_string();
                    match &v.fields {
                        Fields::Unit => { t += &format!("    {n},\n"); sp += &format!("        {name}::{n} => SVal::Unit({n:?}@),\n") }
                        Fields::Unnamed(f) => {
                            t += &format!("    {n}({}),\n", f.unnamed.iter().map(|x| text(&src, &ts.mods, &x.ty)).collect::<Vec<_>>().join(", "));
                            let vs: Vec<String> = (0..f.unnamed.len()).map(|k| format!("x{k}")).collect();
                            let val = if vs.len() == 1 { format!("SVal::New({n:?}@, Box::new(x0.sval()))") } else { format!("mk_tup({n:?}@, Seq::<SVal>::empty(){})", vs.iter().map(|x| format!(".push({x}.sval())")).collect::<String>()) };
                            sp += &format!("        {name}::{n}({}) => {val},\n", vs.join(", "))
                        }
                        Fields::Named(f) => {
                            t += &format!("    {n} {{\n{}    }},\n", named(&src, &ts.mods, f, false));
                            let ns: Vec<String> = f.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect();
                            sp += &format!("        {name}::{n} {{ {} }} => mk_struct_var({n:?}@, {}),\n", ns.join(", "), map_of(ns.iter().map(|x| (x.clone(), format!("{x}.sval()")))))
                        }
                    }
                }
                (true, t + "}\n", sp + "    }")
            }
            _ => (false, String::new(), String::new()),
        };
        if attrs_ok { types.push(serde_json::json!({"name": name, "text": txt, "sval": spec})) }
    }
    println!("{}", serde_json::json!({"types": types, "impls": impls, "notes": notes}));
}
struct GenRw { name: String, to: &'static str, out: Vec<(Range<usize>, String)> }
impl<'b> Visit<'b> for GenRw {
    fn visit_path(&mut self, p: &'b Path) {
        if p.leading_colon.is_none() && p.segments[0].ident == self.name.as_str() { self.out.push((rng(p.segments[0].ident.span()), self.to.to_string())) }
        visit::visit_path(self, p)
    }
}
