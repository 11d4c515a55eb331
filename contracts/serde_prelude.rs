// C17: what serialize may write. A serializer is any implementation of serde's data model; its assumed contract is that it
// records the names and values it is given. `fine` says that it never fails; such a serializer is never made to fail by us.
#![allow(unused_imports, dead_code, non_camel_case_types, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::net::IpAddr;
verus! {

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpAddr(IpAddr);

/// serde's data model, without type names and indices
pub enum SVal {
    Num(int), F32(f32), F64(f64), Bool(bool), Str(Seq<char>), Ip(IpAddr), Nothing, Just(Box<SVal>), List(Seq<SVal>),
    Struct(Map<Seq<char>, SVal>), Unit(Seq<char>), New(Seq<char>, Box<SVal>), Tup(Seq<char>, Seq<SVal>), StructVar(Seq<char>, Map<Seq<char>, SVal>),
}

pub open spec fn mk_struct(m: Map<Seq<char>, SVal>) -> SVal { SVal::Struct(m) }
pub open spec fn mk_struct_var(n: Seq<char>, m: Map<Seq<char>, SVal>) -> SVal { SVal::StructVar(n, m) }
pub open spec fn mk_tup(n: Seq<char>, m: Seq<SVal>) -> SVal { SVal::Tup(n, m) }

/// the serialized form a value must have: every field, under its name, with its value
pub trait SV { spec fn sval(&self) -> SVal; }
impl SV for u8 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for u16 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for u32 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for u64 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for usize { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for i32 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for i64 { open spec fn sval(&self) -> SVal { SVal::Num(*self as int) } }
impl SV for bool { open spec fn sval(&self) -> SVal { SVal::Bool(*self) } }
impl SV for f32 { open spec fn sval(&self) -> SVal { SVal::F32(*self) } }
impl SV for f64 { open spec fn sval(&self) -> SVal { SVal::F64(*self) } }
impl SV for IpAddr { open spec fn sval(&self) -> SVal { SVal::Ip(*self) } }
impl SV for String { open spec fn sval(&self) -> SVal { SVal::Str(self@) } }
impl SV for str { open spec fn sval(&self) -> SVal { SVal::Str(self@) } }
impl<'a, T: SV + ?Sized> SV for &'a T { open spec fn sval(&self) -> SVal { (*self).sval() } }
impl<T: SV> SV for Box<T> { open spec fn sval(&self) -> SVal { (**self).sval() } }
impl<T: SV> SV for Vec<T> { open spec fn sval(&self) -> SVal { SVal::List(Seq::new(self@.len(), |i: int| self@[i].sval())) } }
impl<A: SV, B: SV> SV for (A, B) { open spec fn sval(&self) -> SVal { SVal::List(seq![self.0.sval(), self.1.sval()]) } }
impl<A: SV, B: SV, C: SV> SV for (A, B, C) { open spec fn sval(&self) -> SVal { SVal::List(seq![self.0.sval(), self.1.sval(), self.2.sval()]) } }
impl<T: SV> SV for Option<T> { open spec fn sval(&self) -> SVal { match self { Some(x) => SVal::Just(Box::new(x.sval())), None => SVal::Nothing } } }

pub trait SerOut { spec fn out(&self) -> SVal; }

pub trait SerializeStruct: Sized {
    type Ok: SerOut; type Error;
    spec fn st(&self) -> Map<Seq<char>, SVal>;
    spec fn fine(&self) -> bool;
    fn serialize_field<T: ?Sized + SV>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st().insert(key@, value.sval()), final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok;
    fn skip_field(&mut self, key: &'static str) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st(), final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok;
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures forall|m: Map<Seq<char>, SVal>| #![trigger mk_struct(m)] r is Ok && m =~= self.st() ==> r->Ok_0.out() == SVal::Struct(m), self.fine() ==> r is Ok;
}
pub trait SerializeStructVariant: Sized {
    type Ok: SerOut; type Error;
    spec fn name(&self) -> Seq<char>;
    spec fn st(&self) -> Map<Seq<char>, SVal>;
    spec fn fine(&self) -> bool;
    fn serialize_field<T: ?Sized + SV>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st().insert(key@, value.sval()) && final(self).name() == old(self).name(), final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok;
    fn skip_field(&mut self, key: &'static str) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st() && final(self).name() == old(self).name(), final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok;
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures forall|n: Seq<char>, m: Map<Seq<char>, SVal>| #![trigger mk_struct_var(n, m)] r is Ok && n == self.name() && m =~= self.st() ==> r->Ok_0.out() == SVal::StructVar(n, m), self.fine() ==> r is Ok;
}
pub trait SerializeTupleVariant: Sized {
    type Ok: SerOut; type Error;
    spec fn name(&self) -> Seq<char>;
    spec fn st(&self) -> Seq<SVal>;
    spec fn fine(&self) -> bool;
    fn serialize_field<T: ?Sized + SV>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st().push(value.sval()) && final(self).name() == old(self).name(), final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok;
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures forall|n: Seq<char>, m: Seq<SVal>| #![trigger mk_tup(n, m)] r is Ok && n == self.name() && m =~= self.st() ==> r->Ok_0.out() == SVal::Tup(n, m), self.fine() ==> r is Ok;
}
pub trait Serializer: Sized {
    type Ok: SerOut; type Error;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStructVariant: SerializeStructVariant<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleVariant: SerializeTupleVariant<Ok = Self::Ok, Error = Self::Error>;
    spec fn fine(&self) -> bool;
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r is Ok ==> r->Ok_0.st() == Map::<Seq<char>, SVal>::empty() && r->Ok_0.fine() == self.fine(), self.fine() ==> r is Ok;
    fn serialize_struct_variant(self, name: &'static str, index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeStructVariant, Self::Error>)
        ensures r is Ok ==> r->Ok_0.st() == Map::<Seq<char>, SVal>::empty() && r->Ok_0.name() == variant@ && r->Ok_0.fine() == self.fine(), self.fine() ==> r is Ok;
    fn serialize_tuple_variant(self, name: &'static str, index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeTupleVariant, Self::Error>)
        ensures r is Ok ==> r->Ok_0.st() == Seq::<SVal>::empty() && r->Ok_0.name() == variant@ && r->Ok_0.fine() == self.fine(), self.fine() ==> r is Ok;
    fn serialize_unit_variant(self, name: &'static str, index: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Unit(variant@), self.fine() ==> r is Ok;
    fn serialize_newtype_variant<T: ?Sized + SV>(self, name: &'static str, index: u32, variant: &'static str, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::New(variant@, Box::new(value.sval())), self.fine() ==> r is Ok;
    fn serialize_newtype_struct<T: ?Sized + SV>(self, name: &'static str, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == value.sval(), self.fine() ==> r is Ok;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Str(v@), self.fine() ==> r is Ok;
    fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Nothing, self.fine() ==> r is Ok;
    fn serialize_some<T: ?Sized + SV>(self, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Just(Box::new(value.sval())), self.fine() ==> r is Ok;
    fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Num(v as int), self.fine() ==> r is Ok;
    fn serialize_bool(self, v: bool) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> r->Ok_0.out() == SVal::Bool(v), self.fine() ==> r is Ok;
}
pub trait Serialize: SV {
    fn serialize<S: Serializer>(&self, __serializer: S) -> (r: Result<S::Ok, S::Error>)
        ensures r is Ok ==> r->Ok_0.out() == self.sval(), __serializer.fine() ==> r is Ok;
}

/// a parse error of one line; its message is what Display prints of it
#[verifier::external_body] pub struct SdpParserInternalError { x: u8 }
pub uninterp spec fn err_str(e: SdpParserInternalError) -> Seq<char>;
pub trait DispV { spec fn disp(&self) -> Seq<char>; }
impl DispV for SdpParserInternalError { open spec fn disp(&self) -> Seq<char> { err_str(*self) } }
impl DispV for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl DispV for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<'a, T: DispV + ?Sized> DispV for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body] fn fmt1_v<T: DispV + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
#[verifier::external_body] fn str_v(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] fn fmt_any_v() -> (r: String) { unimplemented!() }
pub trait ToStringV: DispV { fn to_string_v(&self) -> (r: String) ensures r@ == self.disp(); }
impl ToStringV for SdpParserInternalError { #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl ToStringV for String { #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl ToStringV for str { #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
pub trait LenV { spec fn n_v(&self) -> nat; fn len_v(&self) -> (r: usize) ensures r == self.n_v(); fn is_empty_v(&self) -> (r: bool) ensures r == (self.n_v() == 0); }
impl<T> LenV for Vec<T> { open spec fn n_v(&self) -> nat { self@.len() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn is_empty_v(&self) -> (r: bool) { self.is_empty() } }
pub trait OptV { spec fn some_v(&self) -> bool; fn is_some_v(&self) -> (r: bool) ensures r == self.some_v(); fn is_none_v(&self) -> (r: bool) ensures r == !self.some_v(); }
impl<T> OptV for Option<T> { open spec fn some_v(&self) -> bool { self is Some } #[verifier::external_body] fn is_some_v(&self) -> (r: bool) { self.is_some() } #[verifier::external_body] fn is_none_v(&self) -> (r: bool) { self.is_none() } }
