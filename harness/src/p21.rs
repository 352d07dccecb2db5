//! P21: a generic value, path or type description survives serialization with serde, in formats that name fields and
//! variants and in formats that number them
use crate::model::*;
use crate::notes::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::TypeDescriptor;
use mirror_mirror::*;
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::collections::BTreeMap;
use std::fmt;

/// what a format stores
#[allow(non_camel_case_types)]
enum Ct {
    unit,
    bool(bool),
    u8(u8),
    u16(u16),
    u32(u32),
    u64(u64),
    u128(u128),
    i8(i8),
    i16(i16),
    i32(i32),
    i64(i64),
    i128(i128),
    f32(f32),
    f64(f64),
    char(char),
    str(String),
    bytes(Vec<u8>),
    opt(Option<Box<Ct>>),
    seq(Vec<Ct>),
    map(Vec<(Ct, Ct)>),
    variant(u32, &'static str, Box<Ct>),
}
#[derive(Debug)]
struct Bad;
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Bad
    }
}

/// true: fields and variants by name
#[derive(Clone, Copy)]
struct To(bool);
struct Parts(To, Vec<Ct>, Option<(u32, &'static str)>);
struct Named_(To, Vec<(Ct, Ct)>, Option<(u32, &'static str)>, Option<Ct>);
impl Parts {
    fn done(self) -> Ct {
        let c = Ct::seq(self.1);
        match self.2 {
            Some((i, n)) => Ct::variant(i, n, Box::new(c)),
            None => c,
        }
    }
}
impl Named_ {
    fn done(self) -> Ct {
        let c = Ct::map(self.1);
        match self.2 {
            Some((i, n)) => Ct::variant(i, n, Box::new(c)),
            None => c,
        }
    }
}
macro_rules! prim {
    ($($f:ident $t:ident;)*) => { $( fn $f(self, v: $t) -> Result<Ct, Bad> { Ok(Ct::$t(v)) } )* };
}
impl ser::Serializer for To {
    type Ok = Ct;
    type Error = Bad;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Named_;
    type SerializeStruct = Named_;
    type SerializeStructVariant = Named_;
    prim! {
        serialize_bool bool; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_u128 u128;
        serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_i128 i128;
        serialize_f32 f32; serialize_f64 f64; serialize_char char;
    }
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_str(self, v: &str) -> Result<Ct, Bad> {
        Ok(Ct::str(v.to_owned()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Ct, Bad> {
        Ok(Ct::bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Ct, Bad> {
        Ok(Ct::opt(None))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Ct, Bad> {
        Ok(Ct::opt(Some(Box::new(v.serialize(self)?))))
    }
    fn serialize_unit(self) -> Result<Ct, Bad> {
        Ok(Ct::unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Ct, Bad> {
        Ok(Ct::unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Ct, Bad> {
        Ok(Ct::variant(i, n, Box::new(Ct::unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Ct, Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Ct, Bad> {
        Ok(Ct::variant(i, n, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, Bad> {
        Ok(Parts(self, Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, Bad> {
        Ok(Parts(self, Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, Bad> {
        Ok(Parts(self, Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, Bad> {
        Ok(Parts(self, Vec::new(), Some((i, n))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Named_, Bad> {
        Ok(Named_(self, Vec::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Named_, Bad> {
        Ok(Named_(self, Vec::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Named_, Bad> {
        Ok(Named_(self, Vec::new(), Some((i, n)), None))
    }
}
macro_rules! parts {
    ($($t:ident $f:ident;)*) => { $(
        impl ser::$t for Parts {
            type Ok = Ct;
            type Error = Bad;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
                self.1.push(v.serialize(self.0)?);
                Ok(())
            }
            fn end(self) -> Result<Ct, Bad> {
                Ok(self.done())
            }
        }
    )* };
}
parts! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
macro_rules! named {
    ($($t:ident;)*) => { $(
        impl ser::$t for Named_ {
            type Ok = Ct;
            type Error = Bad;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
                self.1.push((Ct::str(k.to_owned()), v.serialize(self.0)?));
                Ok(())
            }
            fn end(self) -> Result<Ct, Bad> {
                Ok(self.done())
            }
        }
    )* };
}
named! { SerializeStruct; SerializeStructVariant; }
impl ser::SerializeMap for Named_ {
    type Ok = Ct;
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Bad> {
        self.3 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        let k = self.3.take().ok_or(Bad)?;
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Ct, Bad> {
        Ok(self.done())
    }
}

struct From_(bool, Ct);
struct Items(bool, std::vec::IntoIter<Ct>);
struct Entries(bool, std::vec::IntoIter<(Ct, Ct)>, Option<Ct>);
impl<'de> de::SeqAccess<'de> for Items {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        match self.1.next() {
            Some(c) => s.deserialize(From_(self.0, c)).map(Some),
            None => Ok(None),
        }
    }
}
impl<'de> de::MapAccess<'de> for Entries {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        match self.1.next() {
            Some((k, v)) => {
                self.2 = Some(v);
                s.deserialize(From_(self.0, k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Bad> {
        let v = self.2.take().ok_or(Bad)?;
        s.deserialize(From_(self.0, v))
    }
}
impl From_ {
    fn fields<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.1 {
            Ct::map(m) if self.0 => v.visit_map(Entries(self.0, m.into_iter(), None)),
            Ct::map(m) => v.visit_seq(Items(false, m.into_iter().map(|(_, v)| v).collect::<Vec<_>>().into_iter())),
            Ct::seq(s) => v.visit_seq(Items(self.0, s.into_iter())),
            _ => Err(Bad),
        }
    }
}
macro_rules! forward {
    ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { self.deserialize_any(v) } )* };
}
impl<'de> de::Deserializer<'de> for From_ {
    type Error = Bad;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.1 {
            Ct::unit => v.visit_unit(),
            Ct::bool(x) => v.visit_bool(x),
            Ct::u8(x) => v.visit_u8(x),
            Ct::u16(x) => v.visit_u16(x),
            Ct::u32(x) => v.visit_u32(x),
            Ct::u64(x) => v.visit_u64(x),
            Ct::u128(x) => v.visit_u128(x),
            Ct::i8(x) => v.visit_i8(x),
            Ct::i16(x) => v.visit_i16(x),
            Ct::i32(x) => v.visit_i32(x),
            Ct::i64(x) => v.visit_i64(x),
            Ct::i128(x) => v.visit_i128(x),
            Ct::f32(x) => v.visit_f32(x),
            Ct::f64(x) => v.visit_f64(x),
            Ct::char(x) => v.visit_char(x),
            Ct::str(x) => v.visit_string(x),
            Ct::bytes(x) => v.visit_byte_buf(x),
            Ct::opt(None) => v.visit_none(),
            Ct::opt(Some(x)) => v.visit_some(From_(self.0, *x)),
            Ct::seq(x) => v.visit_seq(Items(self.0, x.into_iter())),
            Ct::map(x) => v.visit_map(Entries(self.0, x.into_iter(), None)),
            c @ Ct::variant(..) => v.visit_enum(From_(self.0, c)),
        }
    }
    forward! {
        deserialize_bool deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option
        deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.fields(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
}
impl<'de> de::EnumAccess<'de> for From_ {
    type Error = Bad;
    type Variant = From_;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, From_), Bad> {
        match self.1 {
            Ct::variant(i, n, c) => {
                let t = if self.0 {
                    s.deserialize(IntoDeserializer::<Bad>::into_deserializer(n))?
                } else {
                    s.deserialize(IntoDeserializer::<Bad>::into_deserializer(i))?
                };
                Ok((t, From_(self.0, *c)))
            }
            _ => Err(Bad),
        }
    }
}
impl<'de> de::VariantAccess<'de> for From_ {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        match self.1 {
            Ct::unit => Ok(()),
            _ => Err(Bad),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Bad> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        self.fields(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.fields(v)
    }
}

fn trip<T: Serialize + de::DeserializeOwned>(x: &T) -> Option<T> {
    let names = flip();
    let c = x.serialize(To(names)).ok()?;
    T::deserialize(From_(names, c)).ok()
}
fn value<T: Sym + Typed + FromReflect>() {
    let x = T::sym();
    let m = x.model();
    match trip(&x.to_value()) {
        Some(v) => {
            check(agrees(&v, &m), 1);
            check(T::from_reflect(&v).map_or(false, |y| y.model().eq(&m)), 2);
        }
        None => check(false, 3),
    }
    cover(0);
}
fn scalar() {
    let s = Sc::sym(TAGS[choose(16)]);
    match trip(&s.value()) {
        Some(v) => check(agrees(&v, &M::S(s)), 1),
        None => check(false, 2),
    }
    cover(0);
}
/// keys of any kind
fn map() {
    let (a, b) = (Sc::sym(TAGS[choose(16)]), Sc::sym(TAGS[choose(16)]));
    let mut f = BTreeMap::new();
    f.insert(a.value(), Value::from(1u8));
    f.insert(b.value(), Value::from(2u8));
    let v = Value::Map(f);
    check(trip(&v).map_or(false, |w| w == v), 1);
    cover(0);
}
/// the values that aren't behind `Value` on their own
fn parts() {
    let (a, b) = (any_u8(), ascii(1));
    match choose(4) {
        0 => {
            let v = struct_::StructValue::new().with_field("b", a).with_field("a", b);
            check(trip(&v).map_or(false, |w| w == v), 1);
        }
        1 => {
            let v = tuple::TupleValue::new().with_field(a).with_field(b);
            check(trip(&v).map_or(false, |w| w == v), 2);
        }
        2 => {
            let v = tuple_struct::TupleStructValue::new().with_field(a).with_field(b);
            check(trip(&v).map_or(false, |w| w == v), 3);
        }
        _ => {
            let v = match choose(3) {
                0 => enum_::EnumValue::new_unit_variant(b),
                1 => enum_::EnumValue::new_struct_variant("V").with_struct_field("b", a).with_struct_field("a", b).finish(),
                _ => enum_::EnumValue::new_tuple_variant("V").with_tuple_field(a).with_tuple_field(b).finish(),
            };
            check(trip(&v).map_or(false, |w| w == v), 4);
        }
    }
    cover(0);
}
fn path() {
    let n = choose(3);
    let p: KeyPath = (0..n)
        .map(|_| match choose(4) {
            0 => Key::named_field(ascii(1)),
            1 => Key::numbered_field(Sym::sym()),
            2 => Key::get(Sc::sym([Tag::u8, Tag::i128, Tag::String, Tag::bool][choose(4)]).value()),
            _ => Key::variant(ascii(1)),
        })
        .collect();
    check(trip(&p).map_or(false, |q| q == p && q.len() == n), 1);
    cover(0);
}
struct Quiet;
impl mirror_mirror::try_visit::TryVisit for Quiet {
    type Error = ();
}
/// a description still describes the type, and its values
fn described<T: Sym + Typed + FromReflect + DescribeType>() {
    let d = <T as DescribeType>::type_descriptor().into_owned();
    match trip(&d) {
        Some(e) => {
            check(e == d, 1);
            check(str_eq(e.type_name(), T::ty().name), 2);
            check(e.default_value() == d.default_value(), 3);
            let x = T::sym();
            check(mirror_mirror::try_visit::try_visit(&mut Quiet, &x, e.get_type()).is_ok(), 4);
        }
        None => check(false, 5),
    }
    cover(0);
}

/// with metadata and documentation
fn annotated<T: DescribeType>(of: fn(&TypeDescriptor)) {
    fill();
    let d = <T as DescribeType>::type_descriptor().into_owned();
    match trip(&d) {
        Some(e) => {
            check(e == d, 100);
            of(&e);
        }
        None => check(false, 101),
    }
    cover(0);
}

entries! {
    p21_long_list: value::<LongList>();
    p21_long_map: value::<LongMap>();
    p21_long_text: value::<LongText>();
    p21_chain: value::<Chain>();
    p21_scalar: scalar();
    p21_map: map();
    p21_path: path();
    p21_parts: parts();
    p21_named: value::<Named>();
    p21_triple: value::<Triple>();
    p21_unit: value::<Unit>();
    p21_shape: value::<Shape>();
    p21_deep: value::<Deep>();
    p21_tree: value::<Tree>();
    p21_expr: value::<Expr>();
    p21_listed: value::<Listed>();
    p21_map_str: value::<BTreeMap<String, Vec<u8>>>();
    p21_nz: value::<(std::num::NonZeroU8, std::num::NonZeroI128)>();
    p21_range: value::<std::ops::Range<u32>>();
    p21_result: value::<Result<Pair, String>>();
    p21_d_named: described::<Named>();
    p21_d_shape: described::<Shape>();
    p21_d_deep: described::<Deep>();
    p21_d_tree: described::<Tree>();
    p21_d_nz: described::<(std::num::NonZeroU8, bool)>();
    p21_d_notes: annotated::<MStruct>(of_all);
    p21_d_opaque: annotated::<MOpaque>(of_opaque);
}
