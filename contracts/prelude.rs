// Shim prelude: the assumed contracts on std and url, stated over Seq<char>.
// Every `external_body` function here is an assumption; the driver lists them in the evidence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, unused_labels, unreachable_patterns, irrefutable_let_patterns, unused_must_use, noop_method_call)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use vstd::utf8::*;
use vstd::float::*;
use std::cmp::Ordering;
use vstd::string::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::num::{ParseIntError, ParseFloatError};
verus! {

// ------------------------------------------------------------------ strings as sequences
type Str = Seq<char>;
use vax::*;
mod vax {
use super::*;
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn rstrs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub broadcast proof fn ax_rstrs(v: Seq<&str>)
    ensures #![trigger rstrs(v)] rstrs(v).len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger rstrs(v)[i]] 0 <= i < v.len() ==> v[i]@ == rstrs(v)[i] {}
pub broadcast proof fn ax_strs(v: Seq<String>)
    ensures #![trigger strs(v)] strs(v).len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger strs(v)[i]] 0 <= i < v.len() ==> v[i]@ == strs(v)[i] {}
pub broadcast proof fn ax_strs_drop(v: Seq<String>)
    ensures #![trigger strs(v.drop_first())] v.len() > 0 ==> strs(v.drop_first()) == strs(v).drop_first() { if v.len() > 0 { assert(strs(v.drop_first()) =~= strs(v).drop_first()); } }
pub broadcast proof fn ax_strs_push(v: Seq<String>, x: String) ensures #[trigger] strs(v.push(x)) == strs(v).push(x@) { assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub broadcast proof fn ax_rstrs_drop(v: Seq<&str>)
    ensures #![trigger rstrs(v.drop_first())] v.len() > 0 ==> rstrs(v.drop_first()) == rstrs(v).drop_first() { if v.len() > 0 { assert(rstrs(v.drop_first()) =~= rstrs(v).drop_first()); } }
pub broadcast axiom fn ax_f64_ord() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f32_ord() ensures #[trigger] <f32 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f64_cmp(x: f64, y: f64) ensures #![trigger x.partial_cmp_spec(&y)]
    (x.partial_cmp_spec(&y) is None <==> x.is_nan_spec() || y.is_nan_spec()) && (x.is_finite_spec() <==> !x.is_nan_spec() && !x.is_infinite_spec());
pub uninterp spec fn ipv6_of(n: u128) -> Ipv6Addr;
pub uninterp spec fn ipv4_of(n: u32) -> Ipv4Addr;
// two texts with the same characters are the same text (stated with an inverse of the view, so that the solver uses it once per text)
pub broadcast axiom fn ax_str_ext(a: &str) ensures #![trigger a@] str_of(a@) == a;
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(a: String) ensures #![trigger a@] string_of(a@) == a;
pub broadcast axiom fn ax_str_bytes(s: &str)
    ensures #![trigger s.spec_bytes()] s.spec_bytes().len() <= usize::MAX;
// the text slice with a given view (only ever used for views that exist)
pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
pub broadcast axiom fn ax_str_of(s: String) ensures #![trigger str_of(s@)] str_of(s@)@ == s@;
pub broadcast axiom fn ax_ipv4_inj(a: u32, b: u32) ensures #![trigger ipv4_of(a), ipv4_of(b)] ipv4_of(a) == ipv4_of(b) ==> a == b;
pub broadcast axiom fn ax_ipv6_inj(a: u128, b: u128) ensures #![trigger ipv6_of(a), ipv6_of(b)] ipv6_of(a) == ipv6_of(b) ==> a == b;
}

// length in bytes
spec fn blen(s: Str) -> nat { encode_utf8(s).len() }
broadcast proof fn lemma_blen(s: Str) ensures #![trigger encode_utf8(s)] encode_utf8(s).len() >= s.len(), s.len() == 0 ==> encode_utf8(s).len() == 0 decreases s.len() {
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { lemma_blen(s.drop_first()); }
}
spec fn is_ws(c: char) -> bool {
    let x = c as u32;
    (9 <= x <= 13) || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || (0x2000 <= x <= 0x200a) || x == 0x2028 || x == 0x2029
        || x == 0x202f || x == 0x205f || x == 0x3000
}
spec fn trim_start(s: Str) -> Str decreases s.len() {
    if s.len() == 0 { s } else if is_ws(s[0]) { trim_start(s.drop_first()) } else { s }
}
spec fn trim_end(s: Str) -> Str decreases s.len() {
    if s.len() == 0 { s } else if is_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
spec fn trim(s: Str) -> Str { trim_end(trim_start(s)) }

/// index of the first occurrence of c, or s.len()
spec fn find_char(s: Str, c: char) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + find_char(s.drop_first(), c) }
}
spec fn split_char(s: Str, c: char) -> Seq<Str> decreases s.len() {
    let i = find_char(s, c);
    if 0 <= i < s.len() { seq![s.subrange(0, i)] + split_char(s.subrange(i + 1, s.len() as int), c) } else { seq![s] }
}
spec fn splitn_char(n: nat, s: Str, c: char) -> Seq<Str> decreases n {
    let i = find_char(s, c);
    if n == 0 { Seq::empty() } else if n == 1 || !(0 <= i < s.len()) { seq![s] }
    else { seq![s.subrange(0, i)] + splitn_char((n - 1) as nat, s.subrange(i + 1, s.len() as int), c) }
}
/// length of the leading run of non-blank characters
spec fn word_len(s: Str) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if is_ws(s[0]) { 0 } else { 1 + word_len(s.drop_first()) }
}
proof fn lemma_word_len(s: Str) ensures 0 <= word_len(s) <= s.len() decreases s.len() {
    if s.len() > 0 && !is_ws(s[0]) { lemma_word_len(s.drop_first()); }
}
proof fn lemma_trim_start_len(s: Str) ensures trim_start(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { lemma_trim_start_len(s.drop_first()); }
}
spec fn split_ws(s: Str) -> Seq<Str> decreases s.len() via split_ws_dec {
    let t = trim_start(s);
    if t.len() == 0 { Seq::empty() }
    else { seq![t.subrange(0, word_len(t))] + split_ws(t.subrange(word_len(t), t.len() as int)) }
}
#[via_fn]
proof fn split_ws_dec(s: Str) {
    let t = trim_start(s);
    lemma_trim_start_len(s);
    lemma_word_len(t);
    lemma_trim_start_head(s);
}
proof fn lemma_trim_start_head(s: Str) ensures trim_start(s).len() > 0 ==> !is_ws(trim_start(s)[0]) && word_len(trim_start(s)) >= 1 decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { lemma_trim_start_head(s.drop_first()); }
    else if s.len() > 0 { lemma_word_len(s.drop_first()); }
}
proof fn lemma_find_char(s: Str, c: char)
    ensures 0 <= find_char(s, c) <= s.len(),
        find_char(s, c) < s.len() ==> s[find_char(s, c)] == c,
        forall|i: int| 0 <= i < find_char(s, c) ==> s[i] != c,
        s.contains(c) <==> find_char(s, c) < s.len(),
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.drop_first();
        lemma_find_char(t, c);
        let k = find_char(t, c);
        assert forall|i: int| 0 <= i < 1 + k implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if t.contains(c) { let j = choose|j: int| 0 <= j < t.len() && t[j] == c; assert(s[j + 1] == c); }
        if s.contains(c) { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(j > 0); assert(t[j - 1] == c); }
        if k < t.len() { assert(s[k + 1] == t[k]); }
    } else if s.len() > 0 {
        assert(s.contains(c)) by { assert(s[0] == c); }
    }
}
proof fn lemma_split_len(s: Str, c: char) ensures split_char(s, c).len() >= 1 decreases s.len()
{
    lemma_find_char(s, c);
}
broadcast proof fn lemma_split_nonempty(s: Str, c: char) ensures #[trigger] split_char(s, c).len() >= 1 { lemma_split_len(s, c); }
broadcast proof fn lemma_splitn_len(n: nat, s: Str, c: char) ensures #![trigger splitn_char(n, s, c)] splitn_char(n, s, c).len() <= n, n > 0 ==> splitn_char(n, s, c).len() >= 1
    decreases n
{
    lemma_find_char(s, c);
    let i = find_char(s, c);
    if n > 1 && 0 <= i < s.len() { lemma_splitn_len((n - 1) as nat, s.subrange(i + 1, s.len() as int), c); }
}
spec fn join(v: Seq<Str>, sep: Str) -> Str decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + join(v.drop_first(), sep) }
}
spec fn concat(v: Seq<Str>) -> Str decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { v[0] + concat(v.drop_first()) }
}
spec fn nonempty(v: Seq<Str>) -> Seq<Str> { v.filter(|s: Str| s.len() > 0) }
uninterp spec fn to_lower(s: Str) -> Str;
uninterp spec fn to_upper(s: Str) -> Str;
spec fn has_suffix(s: Str, p: Str) -> bool { s.len() >= p.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
spec fn has_prefix(s: Str, p: Str) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }

// ------------------------------------------------------------------ numbers
spec fn digit(c: char) -> int { let x = c as u32 as int; if 48 <= x <= 57 { x - 48 } else { -1 } }
spec fn dchar(n: int) -> char { ((48 + n) as u32) as char }
/// value of an all-digit text (meaningless otherwise)
spec fn dval(s: Str) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + digit(s.last()) }
}
spec fn all_digits(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) >= 0 }
/// text accepted by the unsigned integer parsers of std: optional '+', then one or more digits
spec fn unsigned_body(s: Str) -> Str { if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s } }
spec fn is_uint(s: Str) -> bool { unsigned_body(s).len() > 0 && all_digits(unsigned_body(s)) }
spec fn uint_val(s: Str) -> int { dval(unsigned_body(s)) }
spec fn uint_ok(s: Str, max: int) -> bool { is_uint(s) && uint_val(s) <= max }
spec fn dec(n: int) -> Str decreases n {
    if n < 10 { seq![dchar(n)] } else { dec(n / 10).push(dchar(n % 10)) }
}
spec fn pad0(n: int, w: int) -> Str { if dec(n).len() >= w { dec(n) } else { zeros(w - dec(n).len()) + dec(n) } }
spec fn zeros(k: int) -> Str { Seq::new(if k > 0 { k as nat } else { 0 }, |i: int| '0') }
spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }

// ------------------------------------------------------------------ Formatter
// fmt::Formatter is modelled as the String it writes to (no width/precision flags, writing cannot fail).
type VFmt = String;
struct VFmtErr {}
type VFmtResult = Result<(), VFmtErr>;
trait VFmtX {
    fn lit(&mut self, s: &str) where Self: Sized;
}
impl VFmtX for String {
    #[verifier::external_body]
    fn lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { self.push_str(s) }
}
trait VDisplay {
    spec fn disp(&self) -> Str;
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult)
        ensures r is Ok, final(f)@ == old(f)@ + self.disp();
    fn to_string_v(&self) -> (r: String) ensures r@ == self.disp() {
        let mut f: VFmt = VFmt::new();
        let _ = self.fmt(&mut f);
        proof { assert(f@ =~= self.disp()); }
        f
    }
}
impl<'a, T: VDisplay + ?Sized> VDisplay for &'a T {
    spec fn disp(&self) -> Str { (**self).disp() }
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { (**self).fmt(f) }
}
impl VDisplay for str {
    spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { f.push_str(self); Ok(()) }
}
impl VDisplay for String {
    spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { f.push_str(self); Ok(()) }
}
impl VDisplay for char {
    spec fn disp(&self) -> Str { seq![*self] }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { f.push(*self); Ok(()) }
}
/// the printed forms of the elements
spec fn disps<T: VDisplay>(v: Seq<T>) -> Seq<Str> { Seq::new(v.len(), |i: int| v[i].disp()) }
broadcast proof fn lemma_disps_refs<'a, T: VDisplay>(v: Seq<T>) ensures #[trigger] disps::<&'a T>(refs(v)) == disps(v) { assert(disps::<&'a T>(refs(v)) =~= disps(v)); }
broadcast proof fn lemma_disps_strs(v: Seq<String>) ensures #[trigger] disps::<String>(v) == strs(v) { assert(disps(v) =~= strs(v)); }
broadcast proof fn lemma_add_assoc(a: Str, b: Str, c: Str) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn lemma_add_empty(a: Str, b: Str) ensures #![trigger a + b] b.len() == 0 ==> a + b == a, a.len() == 0 ==> a + b == b { if b.len() == 0 { assert(a + b =~= a); } if a.len() == 0 { assert(a + b =~= b); } }
broadcast group printing0 { lemma_disps_refs, lemma_disps_strs, lemma_add_empty }
broadcast group printing { lemma_disps_refs, lemma_disps_strs, lemma_add_assoc, lemma_add_empty }
/// v followed by x unless x is empty
spec fn nepush(v: Seq<Str>, x: Str) -> Seq<Str> { if x.len() > 0 { v.push(x) } else { v } }
/// the non-empty texts between pre and post, or nothing when there are none
spec fn list_str(pre: Str, v: Seq<Str>, sep: Str, post: Str) -> Str { if nonempty(v).len() == 0 { Seq::empty() } else { pre + join(nonempty(v), sep) + post } }
spec fn opt_str<T: VDisplay>(pre: Str, x: Option<T>, post: Str) -> Str { match x { Some(v) => pre + v.disp() + post, None => Seq::empty() } }
spec fn none() -> Str { Seq::empty() }
trait VDisplayInt {
    spec fn ival(&self) -> int;
    fn fmt_pad0(&self, w: usize, f: &mut VFmt) ensures final(f)@ == old(f)@ + pad0(self.ival(), w as int);
    fn fmt_hex_lower(&self, w: usize, f: &mut VFmt) ensures final(f)@ == old(f)@ + hex_lower(self.ival(), w as int);
    fn fmt_hex_upper(&self, w: usize, f: &mut VFmt) ensures final(f)@ == old(f)@ + hex_upper(self.ival(), w as int);
}
/// {:0w x} / {:0w X}
/// {:0Wx} and {:0WX}
spec fn hexc(d: int, up: bool) -> char { if d < 10 { ((48 + d) as u32) as char } else if up { ((55 + d) as u32) as char } else { ((87 + d) as u32) as char } }
spec fn hexs(n: int, up: bool) -> Str decreases n { if n < 16 { seq![hexc(n, up)] } else { hexs(n / 16, up).push(hexc(n % 16, up)) } }
spec fn hexpad(n: int, w: int, up: bool) -> Str { zeros(w - hexs(n, up).len()) + hexs(n, up) }
#[verifier::opaque]
spec fn hex_lower(n: int, w: int) -> Str { hexpad(n, w, false) }
#[verifier::opaque]
spec fn hex_upper(n: int, w: int) -> Str { hexpad(n, w, true) }
macro_rules! int_display { ($($t:ty),*) => { $(
    verus!{
    impl VDisplay for $t {
        spec fn disp(&self) -> Str { if *self < 0 { seq!['-'] + dec(-(*self as int)) } else { dec(*self as int) } }
        #[verifier::external_body]
        fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { f.push_str(&self.to_string()); Ok(()) }
    }
    impl VDisplayInt for $t {
        spec fn ival(&self) -> int { *self as int }
        #[verifier::external_body]
        fn fmt_pad0(&self, w: usize, f: &mut VFmt) { unimplemented!() }
        #[verifier::external_body]
        fn fmt_hex_lower(&self, w: usize, f: &mut VFmt) { unimplemented!() }
        #[verifier::external_body]
        fn fmt_hex_upper(&self, w: usize, f: &mut VFmt) { unimplemented!() }
    }
    }
)* } }
int_display!(u8, u16, u32, u64, usize, i32);
impl<'a, T: VDisplayInt + ?Sized> VDisplayInt for &'a T {
    spec fn ival(&self) -> int { (**self).ival() }
    fn fmt_pad0(&self, w: usize, f: &mut VFmt) { (**self).fmt_pad0(w, f) }
    fn fmt_hex_lower(&self, w: usize, f: &mut VFmt) { (**self).fmt_hex_lower(w, f) }
    fn fmt_hex_upper(&self, w: usize, f: &mut VFmt) { (**self).fmt_hex_upper(w, f) }
}
macro_rules! opaque_display { ($($t:ty => $n:ident),*) => { $(
    verus!{
    uninterp spec fn $n(x: $t) -> Str;
    impl VDisplay for $t {
        spec fn disp(&self) -> Str { $n(*self) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { unimplemented!() }
    }
    }
)* } }
opaque_display!(f32 => f32_str, f64 => f64_str, Ipv4Addr => ipv4_str, Ipv6Addr => ipv6_str, ParseIntError => pie_str, ParseFloatError => pfe_str, UrlParseError => upe_str, std::net::AddrParseError => ape_str);
verus!{
spec fn ip_str(x: IpAddr) -> Str { match x { IpAddr::V4(a) => ipv4_str(a), IpAddr::V6(a) => ipv6_str(a) } }
impl VDisplay for IpAddr {
    spec fn disp(&self) -> Str { ip_str(*self) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: VFmtResult) { unimplemented!() }
}
}

// ------------------------------------------------------------------ external types
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(pub ParseIntError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseFloatError(pub ParseFloatError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpv4Addr(pub Ipv4Addr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpv6Addr(pub Ipv6Addr);
#[verifier::external_type_specification] pub struct ExIpAddr(pub IpAddr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAddrParseError(pub std::net::AddrParseError);
struct UrlParseError { x: u8 }
enum Host { Domain(String), Ipv4(Ipv4Addr), Ipv6(Ipv6Addr) }

pub assume_specification[ <Ipv4Addr as From<u32>>::from ](n: u32) -> (r: Ipv4Addr) ensures r == ipv4_of(n);
pub assume_specification[ <Ipv6Addr as From<u128>>::from ](n: u128) -> (r: Ipv6Addr) ensures r == ipv6_of(n);


/// panicking macros: unreachable for a caller that meets this contract
#[verifier::external_body]
fn vpanic<T>() -> T requires false { unimplemented!() }
fn vassert(b: bool) requires b {}

// ------------------------------------------------------------------ iterators: the sequence still to be produced
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VIter<T> { x: std::marker::PhantomData<T> }
impl<T> VIter<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    /// Peekable is the iterator itself
    fn peekable_v(self) -> (r: VIter<T>) ensures r@ == self@ { self }
    #[verifier::external_body]
    fn peek<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn enumerate_v(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect_v<V: VFromIter<T>>(self) -> (r: V) ensures V::from_iter_spec(self@, r) { unimplemented!() }
    #[verifier::external_body]
    fn filter_v<F: Fn(&T) -> bool>(self, g: Ghost<spec_fn(T) -> bool>, f: F) -> (r: VIter<T>)
        requires forall|x: T| f.requires((&x,)), forall|x: T, b: bool| f.ensures((&x,), b) ==> b == g@(x)
        ensures r@ == self@.filter(g@)
    { unimplemented!() }
    #[verifier::external_body]
    fn find_v<F: Fn(&T) -> bool>(self, g: Ghost<spec_fn(T) -> bool>, f: F) -> (r: Option<T>)
        requires forall|x: T| f.requires((&x,)), forall|x: T, b: bool| f.ensures((&x,), b) ==> b == g@(x)
        ensures first_match(self@, g@, r)
    { unimplemented!() }
    #[verifier::external_body]
    fn position_v<F: Fn(T) -> bool>(self, g: Ghost<spec_fn(T) -> bool>, f: F) -> (r: Option<usize>)
        requires forall|x: T| f.requires((x,)), forall|x: T, b: bool| f.ensures((x,), b) ==> b == g@(x)
        ensures match r { None => forall|i: int| 0 <= i < self@.len() ==> !g@(#[trigger] self@[i]),
            Some(k) => k < self@.len() && g@(self@[k as int]) && forall|i: int| 0 <= i < k ==> !g@(#[trigger] self@[i]) }
    { unimplemented!() }
    #[verifier::external_body]
    fn all_v<F: Fn(T) -> bool>(self, g: Ghost<spec_fn(T) -> bool>, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)), forall|x: T, b: bool| f.ensures((x,), b) ==> b == g@(x)
        ensures r <==> forall|i: int| 0 <= i < self@.len() ==> g@(#[trigger] self@[i])
    { unimplemented!() }
    #[verifier::external_body]
    fn any_v<F: Fn(T) -> bool>(self, g: Ghost<spec_fn(T) -> bool>, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)), forall|x: T, b: bool| f.ensures((x,), b) ==> b == g@(x)
        ensures r <==> exists|i: int| 0 <= i < self@.len() && g@(#[trigger] self@[i])
    { unimplemented!() }
    #[verifier::external_body]
    fn map_v<B, F: Fn(T) -> B>(self, g: Ghost<spec_fn(T, B) -> bool>, f: F) -> (r: VIter<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)), forall|x: T, b: B| f.ensures((x,), b) ==> g@(x, b)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> g@(self@[i], r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    fn fold_v<B, F: Fn(B, T) -> B>(self, init: B, g: Ghost<spec_fn(B, T, B) -> bool>, f: F) -> (r: B)
        requires forall|b: B, x: T| f.requires((b, x)), forall|b: B, x: T, c: B| f.ensures((b, x), c) ==> g@(b, x, c)
        ensures folded(self@, init, g@, r)
    { unimplemented!() }
    #[verifier::external_body]
    fn filter_map_v<B, F: Fn(T) -> Option<B>>(self, g: Ghost<spec_fn(T) -> Option<B>>, f: F) -> (r: VIter<B>)
        requires forall|x: T| f.requires((x,)), forall|x: T, b: Option<B>| f.ensures((x,), b) ==> b == g@(x)
        ensures r@ == somes(self@, g@)
    { unimplemented!() }
    #[verifier::external_body]
    fn flat_map_v<'a, B: 'a, F: Fn(T) -> &'a Vec<B>>(self, g: Ghost<spec_fn(T) -> &'a Vec<B>>, f: F) -> (r: VIter<&'a B>)
        requires forall|x: T| f.requires((x,)), forall|x: T, b: &'a Vec<B>| f.ensures((x,), b) ==> b == g@(x)
        ensures r@ == flat_refs(self@, g@)
    { unimplemented!() }
}
/// r is reached from init by steps of g along s
spec fn folded<T, B>(s: Seq<T>, init: B, g: spec_fn(B, T, B) -> bool, r: B) -> bool decreases s.len() {
    if s.len() == 0 { r == init } else { exists|m: B| folded(s.drop_last(), init, g, m) && #[trigger] g(m, s.last(), r) }
}
/// images under g, absent ones left out
spec fn somes<T, B>(s: Seq<T>, g: spec_fn(T) -> Option<B>) -> Seq<B> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else { match g(s.last()) { Some(b) => somes(s.drop_last(), g).push(b), None => somes(s.drop_last(), g) } }
}
spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
spec fn flat_refs<'a, T, B>(s: Seq<T>, g: spec_fn(T) -> &'a Vec<B>) -> Seq<&'a B> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat_refs(s.drop_last(), g) + refs(g(s.last())@) }
}
spec fn first_match<T>(s: Seq<T>, g: spec_fn(T) -> bool, r: Option<T>) -> bool {
    match r {
        None => forall|i: int| 0 <= i < s.len() ==> !g(#[trigger] s[i]),
        Some(x) => exists|k: int| 0 <= k < s.len() && s[k] == x && g(x) && (forall|i: int| 0 <= i < k ==> !g(#[trigger] s[i])),
    }
}
trait VFromIter<T>: Sized {
    spec fn from_iter_spec(s: Seq<T>, r: Self) -> bool;
}
impl<T> VFromIter<T> for Vec<T> {
    spec fn from_iter_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
}
impl<T, E> VFromIter<Result<T, E>> for Result<Vec<T>, E> {
    spec fn from_iter_spec(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == Err::<T, E>(e) && forall|i: int| 0 <= i < k ==> #[trigger] s[i] is Ok,
        }
    }
}
impl VFromIter<String> for String {
    spec fn from_iter_spec(s: Seq<String>, r: Self) -> bool { r@ == concat(strs(s)) }
}
trait VIterDisp<T: VDisplay> {
    spec fn items(&self) -> Seq<T>;
    fn map_to_string_v(self) -> (r: VIter<String>) where Self: Sized
        ensures strs(r@) == disps(self.items());
}
impl<T: VDisplay> VIterDisp<T> for VIter<T> {
    spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn map_to_string_v(self) -> (r: VIter<String>) { unimplemented!() }
}
trait VIterStr {
    spec fn texts(&self) -> Seq<Str>;
    fn filter_nonempty_v(self) -> (r: Self) where Self: Sized
        ensures r.texts() == nonempty(self.texts());
}
impl VIterStr for VIter<String> {
    spec fn texts(&self) -> Seq<Str> { strs(self@) }
    #[verifier::external_body]
    fn filter_nonempty_v(self) -> (r: Self) { unimplemented!() }
}
impl<'a> VIterStr for VIter<&'a str> {
    spec fn texts(&self) -> Seq<Str> { rstrs(self@) }
    #[verifier::external_body]
    fn filter_nonempty_v(self) -> (r: Self) { unimplemented!() }
}
trait VIntoIter<T>: Sized {
    spec fn into_spec(self) -> Seq<T>;
    fn into_iter_v(self) -> (r: VIter<T>) ensures r@ == self.into_spec();
}
impl<T> VIntoIter<T> for VIter<T> {
    spec fn into_spec(self) -> Seq<T> { self@ }
    fn into_iter_v(self) -> (r: VIter<T>) { self }
}
impl<'a, T> VIntoIter<&'a T> for &'a Vec<T> {
    spec fn into_spec(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter_v(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter<&'a T> for &'a [T] {
    spec fn into_spec(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter_v(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VIntoIter<T> for Vec<T> {
    spec fn into_spec(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter_v(self) -> (r: VIter<T>) { unimplemented!() }
}

// ------------------------------------------------------------------ equality (== is rewritten to veq)
trait VEq<R: ?Sized = Self> {
    spec fn eqs(&self, o: &R) -> bool;
    fn eqx(&self, o: &R) -> (r: bool) ensures r == self.eqs(o);
}
fn veq<A: VEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.eqx(b) }
impl<'a, 'b, A: VEq<B> + ?Sized, B: ?Sized> VEq<&'b B> for &'a A {
    spec fn eqs(&self, o: &&'b B) -> bool { (**self).eqs(*o) }
    fn eqx(&self, o: &&'b B) -> (r: bool) { (**self).eqx(*o) }
}
macro_rules! text_eq { ($($a:ty, $b:ty);*) => { $( verus!{
impl<'x> VEq<$b> for $a { spec fn eqs(&self, o: &$b) -> bool { self@ == o@ }
    #[verifier::external_body] fn eqx(&self, o: &$b) -> (r: bool) { unimplemented!() } }
} )* } }
text_eq!(String, String; str, str; String, str; String, &'x str; str, String; &'x str, String);
macro_rules! prim_eq { ($($a:ty),*) => { $( verus!{
impl VEq for $a { spec fn eqs(&self, o: &$a) -> bool { *self == *o }
    #[verifier::external_body] fn eqx(&self, o: &$a) -> (r: bool) { unimplemented!() } }
} )* } }
prim_eq!(u8, u16, u32, u64, u128, usize, i32, i64, char, bool, IpAddr, Ipv4Addr, Ipv6Addr);
impl VEq for f32 { spec fn eqs(&self, o: &f32) -> bool { f32_eq(*self, *o) } #[verifier::external_body] fn eqx(&self, o: &f32) -> (r: bool) { unimplemented!() } }
impl VEq for f64 { spec fn eqs(&self, o: &f64) -> bool { f64_eq(*self, *o) } #[verifier::external_body] fn eqx(&self, o: &f64) -> (r: bool) { unimplemented!() } }
uninterp spec fn f32_eq(a: f32, b: f32) -> bool;
uninterp spec fn f64_eq(a: f64, b: f64) -> bool;
impl<T: VEq> VEq for Option<T> {
    spec fn eqs(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.eqs(&b), (None, None) => true, _ => false } }
    #[verifier::external_body] fn eqx(&self, o: &Option<T>) -> (r: bool) { unimplemented!() }
}
impl<T: VEq> VEq for Vec<T> {
    spec fn eqs(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).eqs(&o@[i]) }
    #[verifier::external_body] fn eqx(&self, o: &Vec<T>) -> (r: bool) { unimplemented!() }
}
impl<A: VEq, B: VEq> VEq for (A, B) {
    spec fn eqs(&self, o: &(A, B)) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) }
    #[verifier::external_body] fn eqx(&self, o: &(A, B)) -> (r: bool) { unimplemented!() }
}
// ------------------------------------------------------------------ Vec and slice
trait VSlice<T> {
    spec fn sview(&self) -> Seq<T>;
    fn iter_v<'a>(&'a self) -> (r: VIter<&'a T>) ensures r@ == refs(self.sview());
    fn get_v<'a>(&'a self, i: usize) -> (r: Option<&'a T>) ensures r == (if i < self.sview().len() { Some(&self.sview()[i as int]) } else { None });
    fn first_v<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (if 0 < self.sview().len() { Some(&self.sview()[0]) } else { None });
}
impl<T> VSlice<T> for [T] {
    spec fn sview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_v<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn get_v<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn first_v<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
impl<T> VSlice<T> for Vec<T> {
    spec fn sview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_v<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn get_v<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn first_v<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
trait VVec<T> {
    spec fn vview(&self) -> Seq<T>;
    fn retain_v<F: Fn(&T) -> bool>(&mut self, g: Ghost<spec_fn(T) -> bool>, f: F)
        requires forall|x: T| f.requires((&x,)), forall|x: T, b: bool| f.ensures((&x,), b) ==> b == g@(x)
        ensures final(self).vview() == old(self).vview().filter(g@);
    fn extend_v<I: VIntoIter<T>>(&mut self, o: I) ensures final(self).vview() == old(self).vview() + o.into_spec();
    fn reverse_v(&mut self) ensures final(self).vview() == old(self).vview().reverse();
    /// v.drain(p..)
    fn drain_v(&mut self, p: std::ops::RangeFrom<usize>) -> (r: VIter<T>)
        requires p.start <= old(self).vview().len()
        ensures final(self).vview() == old(self).vview().subrange(0, p.start as int), r@ == old(self).vview().subrange(p.start as int, old(self).vview().len() as int);
}
impl<T> VVec<T> for Vec<T> {
    spec fn vview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn retain_v<F: Fn(&T) -> bool>(&mut self, g: Ghost<spec_fn(T) -> bool>, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn extend_v<I: VIntoIter<T>>(&mut self, o: I) { unimplemented!() }
    #[verifier::external_body]
    fn reverse_v(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn drain_v(&mut self, p: std::ops::RangeFrom<usize>) -> (r: VIter<T>) { unimplemented!() }
}
trait VByteSlice { fn to_vec_v(&self) -> (r: Vec<u8>) ensures r@ == self.bview(); spec fn bview(&self) -> Seq<u8>; }
impl VByteSlice for [u8] {
    spec fn bview(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_vec_v(&self) -> (r: Vec<u8>) { unimplemented!() }
}
trait VContains<A> {
    spec fn has(&self, x: A) -> bool;
    fn contains_v(&self, x: A) -> (r: bool) ensures r == self.has(x);
}
macro_rules! contains_prim { ($($t:ty),*) => { $( verus!{
impl<'q> VContains<&'q $t> for [$t] { spec fn has(&self, x: &'q $t) -> bool { self@.contains(*x) }
    #[verifier::external_body] fn contains_v(&self, x: &'q $t) -> (r: bool) { unimplemented!() } }
impl<'q> VContains<&'q $t> for Vec<$t> { spec fn has(&self, x: &'q $t) -> bool { self@.contains(*x) }
    #[verifier::external_body] fn contains_v(&self, x: &'q $t) -> (r: bool) { unimplemented!() } }
} )* } }
contains_prim!(u8, u16, u32, u64);
impl<'q> VContains<&'q String> for Vec<String> { spec fn has(&self, x: &'q String) -> bool { strs(self@).contains(x@) }
    #[verifier::external_body] fn contains_v(&self, x: &'q String) -> (r: bool) { unimplemented!() } }
impl<'q, 'b> VContains<&'q &'b str> for [&'b str] { spec fn has(&self, x: &'q &'b str) -> bool { rstrs(self@).contains((*x)@) }
    #[verifier::external_body] fn contains_v(&self, x: &'q &'b str) -> (r: bool) { unimplemented!() } }
impl<'q, 'b> VContains<&'q &'b str> for Vec<&'b str> { spec fn has(&self, x: &'q &'b str) -> bool { rstrs(self@).contains((*x)@) }
    #[verifier::external_body] fn contains_v(&self, x: &'q &'b str) -> (r: bool) { unimplemented!() } }
spec fn has_text(s: Str, x: Str) -> bool { exists|i: int| 0 <= i && i + x.len() <= s.len() && #[trigger] s.subrange(i, i + x.len()) == x }
impl<'q> VContains<&'q str> for str { spec fn has(&self, x: &'q str) -> bool { has_text(self@, x@) }
    #[verifier::external_body] fn contains_v(&self, x: &'q str) -> (r: bool) { unimplemented!() } }
impl VContains<char> for str { spec fn has(&self, x: char) -> bool { self@.contains(x) }
    #[verifier::external_body] fn contains_v(&self, x: char) -> (r: bool) { unimplemented!() } }
trait VJoin { spec fn jtexts(&self) -> Seq<Str>; fn join_v(&self, sep: &str) -> (r: String) ensures r@ == join(self.jtexts(), sep@); }
impl VJoin for Vec<String> { spec fn jtexts(&self) -> Seq<Str> { strs(self@) }
    #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VJoin for Vec<&'a str> { spec fn jtexts(&self) -> Seq<Str> { rstrs(self@) }
    #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VJoin for [&'a str] { spec fn jtexts(&self) -> Seq<Str> { rstrs(self@) }
    #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) { unimplemented!() } }
// String::from(&str)
#[verifier::external_body]
fn vstring(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
#[verifier::external_body]
fn vcat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }

// ------------------------------------------------------------------ str and String
trait VPat { spec fn is_char(&self) -> bool; spec fn chr(&self) -> char; spec fn text(&self) -> Str; }
impl VPat for char { spec fn is_char(&self) -> bool { true } spec fn chr(&self) -> char { *self } spec fn text(&self) -> Str { seq![*self] } }
impl<'a> VPat for &'a str { spec fn is_char(&self) -> bool { self@.len() == 1 } spec fn chr(&self) -> char { self@[0] } spec fn text(&self) -> Str { self@ } }
trait VStr {
    spec fn sv(&self) -> Str;
    fn split_whitespace_v<'a>(&'a self) -> (r: VIter<&'a str>) ensures rstrs(r@) == split_ws(self.sv()), r@.len() <= isize::MAX;
    fn split_v<'a, P: VPat>(&'a self, c: P) -> (r: VIter<&'a str>) ensures c.is_char() ==> rstrs(r@) == split_char(self.sv(), c.chr());
    fn splitn_v<'a, P: VPat>(&'a self, n: usize, c: P) -> (r: VIter<&'a str>) ensures c.is_char() ==> rstrs(r@) == splitn_char(n as nat, self.sv(), c.chr());
    fn lines_v<'a>(&'a self) -> (r: VIter<&'a str>) ensures rstrs(r@) == lines_of(self.sv()), r@.len() <= self.sv().len();
    fn trim_v<'a>(&'a self) -> (r: &'a str) ensures r@ == trim(self.sv());
    fn to_lowercase_v(&self) -> (r: String) ensures r@ == to_lower(self.sv());
    fn to_uppercase_v(&self) -> (r: String) ensures r@ == to_upper(self.sv());
    fn to_owned_v(&self) -> (r: String) ensures r@ == self.sv();
    fn parse_v<F: VFromStr>(&self) -> (r: Result<F, F::Err>)
        ensures r is Ok <==> F::accepts(self.sv()), r matches Ok(v) ==> F::value(self.sv(), v), r matches Err(e) ==> F::error(self.sv(), e);
    fn find_v<P: VPat>(&self, c: P) -> (r: Option<usize>)
        ensures c.is_char() ==> (r is Some <==> self.sv().contains(c.chr()));
    fn strip_prefix_v<'a, P: VPat>(&'a self, c: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => has_prefix(self.sv(), c.text()) && t@ == self.sv().subrange(c.text().len() as int, self.sv().len() as int), None => !has_prefix(self.sv(), c.text()) };
    fn starts_with_v<P: VPat>(&self, c: P) -> (r: bool) ensures r == has_prefix(self.sv(), c.text());
    fn ends_with_v<P: VPat>(&self, c: P) -> (r: bool) ensures r == has_suffix(self.sv(), c.text());
    fn as_ref_v<'a>(&'a self) -> (r: &'a str) ensures r@ == self.sv();
}
/// the lines of a text: each ends at a line feed, with one carriage return before it dropped; a rest without line feed is a line
spec fn lines_of(s: Str) -> Seq<Str> decreases s.len() {
    let i = find_char(s, '\n');
    if 0 <= i < s.len() { seq![strip_cr(s.subrange(0, i))] + lines_of(s.subrange(i + 1, s.len() as int)) } else if s.len() > 0 { seq![s] } else { Seq::empty() }
}
spec fn strip_cr(s: Str) -> Str { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
impl VStr for str {
    spec fn sv(&self) -> Str { self@ }
    #[verifier::external_body] fn split_whitespace_v<'a>(&'a self) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn split_v<'a, P: VPat>(&'a self, c: P) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn splitn_v<'a, P: VPat>(&'a self, n: usize, c: P) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn lines_v<'a>(&'a self) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn trim_v<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn to_lowercase_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_uppercase_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_owned_v(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn parse_v<F: VFromStr>(&self) -> (r: Result<F, F::Err>) { unimplemented!() }
    #[verifier::external_body] fn find_v<P: VPat>(&self, c: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn strip_prefix_v<'a, P: VPat>(&'a self, c: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn starts_with_v<P: VPat>(&self, c: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ends_with_v<P: VPat>(&self, c: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn as_ref_v<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
}
// x[a..b]: a text is cut at byte offsets, which have to be character boundaries
trait VCut {
    type O: ?Sized;
    spec fn cut_ok(&self, a: int, b: Option<usize>) -> bool;
    spec fn cut_is(&self, a: int, b: Option<usize>, r: &Self::O) -> bool;
    fn cut_v<'a>(&'a self, a: usize, b: Option<usize>) -> (r: &'a Self::O) requires self.cut_ok(a as int, b) ensures self.cut_is(a as int, b, r);
    spec fn whole_is(&self, r: &Self::O) -> bool;
    fn whole_v<'a>(&'a self) -> (r: &'a Self::O) ensures self.whole_is(r);
}
/// k is the index of the character at byte a
spec fn bcut(s: Str, k: int, a: int) -> bool { 0 <= k <= s.len() && blen(s.subrange(0, k)) == a }
spec fn str_cut_ok(s: Str, a: int, b: Option<usize>) -> bool {
    match b { None => exists|i: int, x: int| #[trigger] bcut(s, i, x) && x == a, Some(b) => exists|i: int, j: int, x: int, y: int| #[trigger] bcut(s, i, x) && #[trigger] bcut(s, j, y) && x == a && y == b && i <= j }
}
spec fn str_cut_is(s: Str, a: int, b: Option<usize>, r: Str) -> bool {
    match b { None => forall|i: int, x: int| #[trigger] bcut(s, i, x) && x == a ==> r == s.subrange(i, s.len() as int),
        Some(b) => forall|i: int, j: int, x: int, y: int| #[trigger] bcut(s, i, x) && #[trigger] bcut(s, j, y) && x == a && y == b ==> r == s.subrange(i, j) }
}
impl VCut for str { type O = str;
    spec fn cut_ok(&self, a: int, b: Option<usize>) -> bool { str_cut_ok(self@, a, b) }
    spec fn cut_is(&self, a: int, b: Option<usize>, r: &str) -> bool { str_cut_is(self@, a, b, r@) }
    #[verifier::external_body] fn cut_v<'a>(&'a self, a: usize, b: Option<usize>) -> (r: &'a str) { unimplemented!() }
    spec fn whole_is(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_v<'a>(&'a self) -> (r: &'a str) { unimplemented!() } }
impl VCut for String { type O = str;
    spec fn cut_ok(&self, a: int, b: Option<usize>) -> bool { str_cut_ok(self@, a, b) }
    spec fn cut_is(&self, a: int, b: Option<usize>, r: &str) -> bool { str_cut_is(self@, a, b, r@) }
    #[verifier::external_body] fn cut_v<'a>(&'a self, a: usize, b: Option<usize>) -> (r: &'a str) { unimplemented!() }
    spec fn whole_is(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_v<'a>(&'a self) -> (r: &'a str) { unimplemented!() } }
spec fn cut_end(n: int, b: Option<usize>) -> int { match b { Some(b) => b as int, None => n } }
impl<T> VCut for Vec<T> { type O = [T];
    spec fn cut_ok(&self, a: int, b: Option<usize>) -> bool { a <= cut_end(self@.len() as int, b) <= self@.len() }
    spec fn cut_is(&self, a: int, b: Option<usize>, r: &[T]) -> bool { r@ == self@.subrange(a, cut_end(self@.len() as int, b)) }
    #[verifier::external_body] fn cut_v<'a>(&'a self, a: usize, b: Option<usize>) -> (r: &'a [T]) { unimplemented!() }
    spec fn whole_is(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_v<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
impl<T> VCut for [T] { type O = [T];
    spec fn cut_ok(&self, a: int, b: Option<usize>) -> bool { a <= cut_end(self@.len() as int, b) <= self@.len() }
    spec fn cut_is(&self, a: int, b: Option<usize>, r: &[T]) -> bool { r@ == self@.subrange(a, cut_end(self@.len() as int, b)) }
    #[verifier::external_body] fn cut_v<'a>(&'a self, a: usize, b: Option<usize>) -> (r: &'a [T]) { unimplemented!() }
    spec fn whole_is(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_v<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
spec fn ascii(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f }
proof fn lemma_blen_ascii(s: Str) requires ascii(s) ensures blen(s) == s.len() decreases s.len() {
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]) as u32 <= 0x7f by { assert(s.drop_first()[i] == s[i + 1]); } lemma_blen_ascii(s.drop_first()); }
}
proof fn lemma_blen_add(a: Str, b: Str) ensures blen(a + b) == blen(a) + blen(b) { encode_utf8_concat(a, b); }
// the first k characters are ASCII
proof fn lemma_cut_head(s: Str, k: int) requires 0 <= k <= s.len(), ascii(s.subrange(0, k)) ensures bcut(s, k, k) { lemma_blen_ascii(s.subrange(0, k)); }
// the last character is ASCII
proof fn lemma_cut_last(s: Str) requires s.len() > 0, s.last() as u32 <= 0x7f ensures blen(s) >= 1, bcut(s, s.len() - 1, blen(s) - 1) {
    let h = s.drop_last();
    assert(s =~= h + seq![s.last()]);
    lemma_blen_add(h, seq![s.last()]);
    lemma_blen_ascii(seq![s.last()]);
    assert(s.subrange(0, s.len() - 1) =~= h);
}
// String -> &str deref gives the str methods; String::as_ref too
trait VFromStr: Sized {
    type Err;
    spec fn accepts(s: Str) -> bool;
    spec fn value(s: Str, v: Self) -> bool;
    spec fn error(s: Str, e: Self::Err) -> bool;
    fn from_str_v(s: &str) -> (r: Result<Self, Self::Err>)
        ensures r is Ok <==> Self::accepts(s@), r matches Ok(v) ==> Self::value(s@, v), r matches Err(e) ==> Self::error(s@, e);
}
macro_rules! int_parse { ($($t:ty, $max:expr);*) => { $( verus!{
impl VFromStr for $t {
    type Err = ParseIntError;
    spec fn accepts(s: Str) -> bool { uint_ok(s, $max as int) }
    spec fn value(s: Str, v: Self) -> bool { v as int == uint_val(s) }
    spec fn error(s: Str, e: ParseIntError) -> bool { true }
    #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, ParseIntError>) { unimplemented!() }
}
} )* } }
int_parse!(u8, u8::MAX; u16, u16::MAX; u32, u32::MAX; u64, u64::MAX; usize, usize::MAX);
// from_str_radix, for base 16
spec fn hexd(c: char) -> int { let x = c as u32 as int; if 48 <= x <= 57 { x - 48 } else if 65 <= x <= 70 { x - 55 } else if 97 <= x <= 102 { x - 87 } else { -1 } }
spec fn all_hex(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> hexd(#[trigger] s[i]) >= 0 }
spec fn hdval(s: Str) -> int decreases s.len() { if s.len() == 0 { 0 } else { hdval(s.drop_last()) * 16 + hexd(s.last()) } }
spec fn hex_ok(s: Str, max: int) -> bool { unsigned_body(s).len() > 0 && all_hex(unsigned_body(s)) && hex_val(s) <= max }
spec fn hex_val(s: Str) -> int { hdval(unsigned_body(s)) }
trait VRadix: Sized { fn from_str_radix_v(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>)
    requires radix == 16 ensures r is Ok <==> hex_ok(s@, Self::rmax()), r matches Ok(v) ==> v.rval() == hex_val(s@); spec fn rmax() -> int; spec fn rval(self) -> int; }
macro_rules! radix_parse { ($($t:ty),*) => { $( verus!{
impl VRadix for $t { spec fn rmax() -> int { <$t>::MAX as int } spec fn rval(self) -> int { self as int }
    #[verifier::external_body] fn from_str_radix_v(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>) { unimplemented!() } }
} )* } }
radix_parse!(u8, u16, u32, u64);
pub assume_specification[ f64::is_nan ](x: f64) -> (r: bool) ensures r == x.is_nan_spec();
pub assume_specification[ f64::is_infinite ](x: f64) -> (r: bool) ensures r == x.is_infinite_spec();
pub assume_specification[ f64::is_finite ](x: f64) -> (r: bool) ensures r == x.is_finite_spec();
spec fn le64(x: f64, y: f64) -> bool { x.partial_cmp_spec(&y) matches Some(o) && (o is Less || o is Equal) }
spec fn ge32(x: f32, y: f32) -> bool { x.partial_cmp_spec(&y) matches Some(o) && (o is Greater || o is Equal) }
#[verifier::external_body]
fn vfmt_debug<T: ?Sized>(x: &T, f: &mut VFmt) { unimplemented!() }
uninterp spec fn f32_ok(s: Str) -> bool;
uninterp spec fn f32_of(s: Str) -> f32;
uninterp spec fn f64_ok(s: Str) -> bool;
uninterp spec fn f64_of(s: Str) -> f64;
impl VFromStr for f32 {
    type Err = ParseFloatError;
    spec fn accepts(s: Str) -> bool { f32_ok(s) }
    spec fn value(s: Str, v: Self) -> bool { v == f32_of(s) }
    spec fn error(s: Str, e: ParseFloatError) -> bool { true }
    #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, ParseFloatError>) { unimplemented!() }
}
impl VFromStr for f64 {
    type Err = ParseFloatError;
    spec fn accepts(s: Str) -> bool { f64_ok(s) }
    spec fn value(s: Str, v: Self) -> bool { v == f64_of(s) }
    spec fn error(s: Str, e: ParseFloatError) -> bool { true }
    #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, ParseFloatError>) { unimplemented!() }
}
uninterp spec fn ip_ok(s: Str) -> bool;
uninterp spec fn ip_of(s: Str) -> IpAddr;
impl VFromStr for IpAddr {
    type Err = std::net::AddrParseError;
    spec fn accepts(s: Str) -> bool { ip_ok(s) }
    spec fn value(s: Str, v: Self) -> bool { v == ip_of(s) }
    spec fn error(s: Str, e: std::net::AddrParseError) -> bool { true }
    #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, std::net::AddrParseError>) { unimplemented!() }
}
uninterp spec fn host_ok(s: Str) -> bool;
uninterp spec fn host_of(s: Str) -> Host;
impl Host {
    #[verifier::external_body]
    fn parse(s: &str) -> (r: Result<Host, UrlParseError>) ensures r is Ok <==> host_ok(s@), r matches Ok(h) ==> h == host_of(s@) { unimplemented!() }
}
trait VTryFrom<T>: Sized {
    type Error;
    spec fn tf_accepts(x: T) -> bool;
    spec fn tf_value(x: T, v: Self) -> bool;
    spec fn tf_error(x: T, e: Self::Error) -> bool;
    fn try_from_v(x: T) -> (r: Result<Self, Self::Error>)
        ensures r is Ok <==> Self::tf_accepts(x), r matches Ok(v) ==> Self::tf_value(x, v), r matches Err(e) ==> Self::tf_error(x, e);
}
// the conversion a `?` applies to an error
trait VErrInto<T>: Sized { spec fn ei(self, r: T) -> bool; fn err_into(self) -> (r: T) ensures self.ei(r); }
impl VErrInto<VFmtErr> for VFmtErr { spec fn ei(self, r: VFmtErr) -> bool { true } fn err_into(self) -> (r: VFmtErr) { self } }
// ------------------------------------------------------------------ Option / Result adaptors under their renamed names
trait VOption<T>: Sized {
    spec fn ov(self) -> Option<T>;
    fn as_ref_v<'a>(&'a self) -> (r: Option<&'a T>) ensures (*self).ov() is None ==> r is None, (*self).ov() matches Some(x) ==> r is Some && *(r->Some_0) == x;
    fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ov() matches Some(x) ==> f.requires((x,))
        ensures self.ov() is None ==> r is None, self.ov() matches Some(x) ==> r is Some && f.ensures((x,), r->Some_0);
    fn and_then_v<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.ov() matches Some(x) ==> f.requires((x,))
        ensures self.ov() is None ==> r is None, self.ov() matches Some(x) ==> f.ensures((x,), r);
}
impl<T> VOption<T> for Option<T> {
    spec fn ov(self) -> Option<T> { self }
    #[verifier::external_body] fn as_ref_v<'a>(&'a self) -> (r: Option<&'a T>) { self.as_ref() }
    #[verifier::external_body] fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { self.map(f) }
    #[verifier::external_body] fn and_then_v<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { self.and_then(f) }
}
trait VResultX<T, E>: Sized {
    spec fn rv(self) -> Result<T, E>;
    fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() matches Ok(x) ==> f.requires((x,))
        ensures self.rv() matches Ok(x) ==> r is Ok && f.ensures((x,), r->Ok_0), self.rv() matches Err(e) ==> r == Err::<U, E>(e);
}
impl<T, E> VResultX<T, E> for Result<T, E> {
    spec fn rv(self) -> Result<T, E> { self }
    #[verifier::external_body] fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { self.map(f) }
}
// ------------------------------------------------------------------ HashMap, Wrapping
trait VKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VKey for u32 { type KV = u32; spec fn kv(&self) -> u32 { *self } }
impl VKey for IpAddr { type KV = IpAddr; spec fn kv(&self) -> IpAddr { *self } }
impl VKey for String { type KV = Str; spec fn kv(&self) -> Str { self@ } }
impl VKey for str { type KV = Str; spec fn kv(&self) -> Str { self@ } }
impl VKey for Vec<u8> { type KV = Seq<u8>; spec fn kv(&self) -> Seq<u8> { self@ } }
impl VKey for [u8] { type KV = Seq<u8>; spec fn kv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K: VKey, V> { x: std::marker::PhantomData<(K, V)> }
impl<K: VKey, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::KV, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get_v<'a, Q: VKey<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures r == (if self@.dom().contains(k.kv()) { Some(&self@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key_v<Q: VKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
}
struct Wrapping<T>(T);
trait VAddAssign: Sized { fn add_assign_v(&mut self, o: Self); }
macro_rules! wrapping_add { ($($t:ty),*) => { $( verus!{
impl VAddAssign for Wrapping<$t> {
    #[verifier::external_body]
    fn add_assign_v(&mut self, o: Self)
        ensures final(self).0 as int == (if old(self).0 as int + o.0 as int > <$t>::MAX as int { old(self).0 as int + o.0 as int - (<$t>::MAX as int + 1) } else { old(self).0 as int + o.0 as int })
    { unimplemented!() }
}
} )* } }
wrapping_add!(u8, u16, u32, u64, u128);
} // verus!
