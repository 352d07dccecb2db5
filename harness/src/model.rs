//! An independent model of reflected content (`M`) and types (`Ty`), and what conversion and
//! patching are meant to do to it. Nothing here calls into the code under test, except `value`,
//! which builds a generic value through the public builders.
#![allow(dead_code)]
use crate::sx::*;
use mirror_mirror::enum_::{EnumValue, VariantKind};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::*;
use std::collections::BTreeMap;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Tag {
    usize,
    u8,
    u16,
    u32,
    u64,
    u128,
    i8,
    i16,
    i32,
    i64,
    i128,
    bool,
    char,
    f32,
    f64,
    String,
}
pub const TAGS: [Tag; 16] = [
    Tag::usize,
    Tag::u8,
    Tag::u16,
    Tag::u32,
    Tag::u64,
    Tag::u128,
    Tag::i8,
    Tag::i16,
    Tag::i32,
    Tag::i64,
    Tag::i128,
    Tag::bool,
    Tag::char,
    Tag::f32,
    Tag::f64,
    Tag::String,
];
impl Tag {
    pub fn name(self) -> &'static str {
        use std::any::type_name as n;
        match self {
            Tag::usize => n::<usize>(),
            Tag::u8 => n::<u8>(),
            Tag::u16 => n::<u16>(),
            Tag::u32 => n::<u32>(),
            Tag::u64 => n::<u64>(),
            Tag::u128 => n::<u128>(),
            Tag::i8 => n::<i8>(),
            Tag::i16 => n::<i16>(),
            Tag::i32 => n::<i32>(),
            Tag::i64 => n::<i64>(),
            Tag::i128 => n::<i128>(),
            Tag::bool => n::<bool>(),
            Tag::char => n::<char>(),
            Tag::f32 => n::<f32>(),
            Tag::f64 => n::<f64>(),
            Tag::String => n::<String>(),
        }
    }
}
/// a scalar: its bits zero-extended, or its text
#[derive(Clone)]
pub struct Sc {
    pub tag: Tag,
    pub bits: u128,
    pub s: String,
}
impl Sc {
    pub fn eq(&self, o: &Sc) -> bool {
        self.tag == o.tag
            && if self.tag == Tag::String { self.s.same(&o.s) } else { self.bits == o.bits }
    }
    /// as `==` on the Rust type
    pub fn num_eq(&self, o: &Sc) -> bool {
        self.tag == o.tag
            && match self.tag {
                Tag::f32 => f32::from_bits(self.bits as u32) == f32::from_bits(o.bits as u32),
                Tag::f64 => f64::from_bits(self.bits as u64) == f64::from_bits(o.bits as u64),
                _ => self.eq(o),
            }
    }
    pub fn sym(tag: Tag) -> Sc {
        match tag {
            Tag::usize => <usize as Sym>::sym().sc(),
            Tag::u8 => <u8 as Sym>::sym().sc(),
            Tag::u16 => <u16 as Sym>::sym().sc(),
            Tag::u32 => <u32 as Sym>::sym().sc(),
            Tag::u64 => <u64 as Sym>::sym().sc(),
            Tag::u128 => <u128 as Sym>::sym().sc(),
            Tag::i8 => <i8 as Sym>::sym().sc(),
            Tag::i16 => <i16 as Sym>::sym().sc(),
            Tag::i32 => <i32 as Sym>::sym().sc(),
            Tag::i64 => <i64 as Sym>::sym().sc(),
            Tag::i128 => <i128 as Sym>::sym().sc(),
            Tag::bool => <bool as Sym>::sym().sc(),
            Tag::char => <char as Sym>::sym().sc(),
            Tag::f32 => <f32 as Sym>::sym().sc(),
            Tag::f64 => <f64 as Sym>::sym().sc(),
            Tag::String => <String as Sym>::sym().sc(),
        }
    }
    pub fn value(&self) -> Value {
        let b = self.bits;
        match self.tag {
            Tag::usize => Value::usize(b as usize),
            Tag::u8 => Value::u8(b as u8),
            Tag::u16 => Value::u16(b as u16),
            Tag::u32 => Value::u32(b as u32),
            Tag::u64 => Value::u64(b as u64),
            Tag::u128 => Value::u128(b),
            Tag::i8 => Value::i8(b as i8),
            Tag::i16 => Value::i16(b as i16),
            Tag::i32 => Value::i32(b as i32),
            Tag::i64 => Value::i64(b as i64),
            Tag::i128 => Value::i128(b as i128),
            Tag::bool => Value::bool(b & 1 == 1),
            // Safety: only ever made from a char
            Tag::char => Value::char(unsafe { char::from_u32_unchecked(b as u32) }),
            Tag::f32 => Value::f32(f32::from_bits(b as u32)),
            Tag::f64 => Value::f64(f64::from_bits(b as u64)),
            Tag::String => Value::String(self.s.clone()),
        }
    }
    /// the scalar as an index, if it is a number in range
    pub fn index(&self) -> Option<usize> {
        let b = self.bits;
        let neg = match self.tag {
            Tag::i8 => (b as i8) < 0,
            Tag::i16 => (b as i16) < 0,
            Tag::i32 => (b as i32) < 0,
            Tag::i64 => (b as i64) < 0,
            Tag::i128 => (b as i128) < 0,
            Tag::bool | Tag::char | Tag::f32 | Tag::f64 | Tag::String => return None,
            _ => false,
        };
        if neg || b > usize::MAX as u128 {
            None
        } else {
            Some(b as usize)
        }
    }
}
pub trait Scalar {
    fn sc(&self) -> Sc;
}
macro_rules! scalar {
    ($($t:ident $x:ident => $e:expr;)*) => { $(
        impl Scalar for $t {
            fn sc(&self) -> Sc { let $x = *self; Sc { tag: Tag::$t, bits: $e as u128, s: String::new() } }
        }
        impl Typed for $t {
            fn model(&self) -> M { M::S(self.sc()) }
            fn ty() -> Ty { Ty { name: std::any::type_name::<$t>(), k: K::Scalar(Tag::$t) } }
        }
    )* };
}
scalar! {
    usize x => x; u8 x => x; u16 x => x; u32 x => x; u64 x => x; u128 x => x;
    i8 x => x as u8; i16 x => x as u16; i32 x => x as u32; i64 x => x as u64; i128 x => x as u128;
    bool x => x; char x => x as u32; f32 x => x.to_bits(); f64 x => x.to_bits();
}
impl Scalar for String {
    fn sc(&self) -> Sc {
        Sc { tag: Tag::String, bits: 0, s: self.clone() }
    }
}
impl Typed for String {
    fn model(&self) -> M {
        M::S(self.sc())
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<String>(), k: K::Scalar(Tag::String) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VK {
    Struct,
    Tuple,
    Unit,
}
impl VK {
    pub fn of(k: VariantKind) -> VK {
        match k {
            VariantKind::Struct => VK::Struct,
            VariantKind::Tuple => VK::Tuple,
            VariantKind::Unit => VK::Unit,
        }
    }
}
/// reflected content
#[derive(Clone)]
pub enum M {
    S(Sc),
    Struct(Vec<(&'static str, M)>),
    TStruct(Vec<M>),
    Tuple(Vec<M>),
    Enum(&'static str, VK, Vec<(&'static str, M)>),
    List(Vec<M>),
    Array(Vec<M>),
    Map(Vec<(M, M)>),
}
pub type TyFn = fn() -> Ty;
pub struct Ty {
    pub name: &'static str,
    pub k: K,
}
pub struct Var {
    pub name: &'static str,
    pub kind: VK,
    pub fields: Vec<(&'static str, TyFn)>,
}
pub enum K {
    Scalar(Tag),
    NonZero(Tag),
    Struct(Vec<(&'static str, TyFn)>),
    TStruct(Vec<TyFn>),
    Tuple(Vec<TyFn>),
    Enum(Vec<Var>),
    List(TyFn),
    Array(TyFn, usize),
    Map(TyFn, TyFn),
}
pub trait Typed {
    fn model(&self) -> M;
    fn ty() -> Ty;
}

pub fn str_eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.as_bytes() == b.as_bytes()
}

impl M {
    /// structural equality, bit for bit; a list and an array of the same elements are equal
    pub fn eq(&self, o: &M) -> bool {
        self.eq_with(o, false)
    }
    pub fn eq_with(&self, o: &M, num: bool) -> bool {
        fn all(a: &[M], b: &[M], num: bool) -> bool {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for i in 0..a.len() {
                r &= a[i].eq_with(&b[i], num);
            }
            r
        }
        fn named(a: &[(&'static str, M)], b: &[(&'static str, M)], num: bool) -> bool {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for i in 0..a.len() {
                r &= str_eq(a[i].0, b[i].0) && a[i].1.eq_with(&b[i].1, num);
            }
            r
        }
        match (self, o) {
            (M::S(a), M::S(b)) => {
                if num {
                    a.num_eq(b)
                } else {
                    a.eq(b)
                }
            }
            (M::Struct(a), M::Struct(b)) => named(a, b, num),
            (M::TStruct(a), M::TStruct(b)) | (M::Tuple(a), M::Tuple(b)) => all(a, b, num),
            (M::Enum(n, k, a), M::Enum(n2, k2, b)) => str_eq(n, n2) && k == k2 && named(a, b, num),
            (M::List(a) | M::Array(a), M::List(b) | M::Array(b)) => all(a, b, num),
            (M::Map(a), M::Map(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut r = true;
                for i in 0..a.len() {
                    r &= a[i].0.eq_with(&b[i].0, num) & a[i].1.eq_with(&b[i].1, num);
                }
                r
            }
            _ => false,
        }
    }
    /// the generic value with this content
    pub fn value(&self) -> Value {
        match self {
            M::S(s) => s.value(),
            M::Struct(f) => {
                let mut v = StructValue::new();
                for (n, m) in f {
                    v.set_field(*n, m.value());
                }
                v.into()
            }
            M::TStruct(f) => {
                let mut v = TupleStructValue::new();
                for m in f {
                    v.push_field(m.value());
                }
                v.into()
            }
            M::Tuple(f) => {
                let mut v = TupleValue::new();
                for m in f {
                    v.push_field(m.value());
                }
                v.into()
            }
            M::Enum(n, VK::Unit, _) => EnumValue::new_unit_variant(*n).into(),
            M::Enum(n, VK::Tuple, f) => {
                let mut v = EnumValue::new_tuple_variant(*n);
                for (_, m) in f {
                    v.push_tuple_field(m.value());
                }
                v.finish().into()
            }
            M::Enum(n, VK::Struct, f) => {
                let mut v = EnumValue::new_struct_variant(*n);
                for (n, m) in f {
                    v.set_struct_field(*n, m.value());
                }
                v.finish().into()
            }
            M::List(f) | M::Array(f) => Value::List(f.iter().map(|m| m.value()).collect()),
            M::Map(f) => Value::Map(f.iter().map(|(k, v)| (k.value(), v.value())).collect()),
        }
    }
    pub fn tag(&self) -> Option<Tag> {
        match self {
            M::S(s) => Some(s.tag),
            _ => None,
        }
    }
}

/// does the reflected value have this content? `generic`: arrays may show up as lists
pub fn agrees(v: &dyn Reflect, m: &M) -> bool {
    match (v.reflect_ref(), m) {
        (ReflectRef::Scalar(s), M::S(m)) => scalar_ref(s).eq(m),
        (ReflectRef::Struct(s), M::Struct(f)) => {
            let mut r = s.fields_len() == f.len();
            for (n, m) in f {
                match s.field(n) {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::TupleStruct(s), M::TStruct(f)) => {
            let mut r = s.fields_len() == f.len();
            for (i, m) in f.iter().enumerate() {
                match s.field_at(i) {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::Tuple(s), M::Tuple(f)) => {
            let mut r = s.fields_len() == f.len();
            for (i, m) in f.iter().enumerate() {
                match s.field_at(i) {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::Enum(s), M::Enum(n, k, f)) => {
            let mut r = str_eq(s.variant_name(), n) && VK::of(s.variant_kind()) == *k && s.fields_len() == f.len();
            for (i, (n, m)) in f.iter().enumerate() {
                let x = if *k == VK::Struct { s.field(n) } else { s.field_at(i) };
                match x {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::List(s), M::List(f) | M::Array(f)) => {
            let mut r = s.len() == f.len();
            for (i, m) in f.iter().enumerate() {
                match s.get(i) {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::Array(s), M::Array(f)) => {
            let mut r = s.len() == f.len();
            for (i, m) in f.iter().enumerate() {
                match s.get(i) {
                    Some(x) => r &= agrees(x, m),
                    None => return false,
                }
            }
            r
        }
        (ReflectRef::Map(s), M::Map(f)) => {
            if s.len() != f.len() {
                return false;
            }
            let mut r = true;
            let mut n = 0;
            for (i, (k, x)) in s.iter().enumerate() {
                if i >= f.len() {
                    return false;
                }
                r &= agrees(k, &f[i].0) & agrees(x, &f[i].1);
                n += 1;
            }
            r && n == f.len()
        }
        _ => false,
    }
}

pub fn scalar_ref(s: ScalarRef<'_>) -> Sc {
    match s {
        ScalarRef::usize(x) => x.sc(),
        ScalarRef::u8(x) => x.sc(),
        ScalarRef::u16(x) => x.sc(),
        ScalarRef::u32(x) => x.sc(),
        ScalarRef::u64(x) => x.sc(),
        ScalarRef::u128(x) => x.sc(),
        ScalarRef::i8(x) => x.sc(),
        ScalarRef::i16(x) => x.sc(),
        ScalarRef::i32(x) => x.sc(),
        ScalarRef::i64(x) => x.sc(),
        ScalarRef::i128(x) => x.sc(),
        ScalarRef::bool(x) => x.sc(),
        ScalarRef::char(x) => x.sc(),
        ScalarRef::f32(x) => x.sc(),
        ScalarRef::f64(x) => x.sc(),
        ScalarRef::String(x) => x.sc(),
    }
}

/// what converting generic content `v` to type `t` is meant to give
pub fn fit(t: &Ty, v: &M) -> Option<M> {
    match (&t.k, v) {
        (K::Scalar(tag), M::S(s)) => {
            if s.tag == *tag {
                Some(v.clone())
            } else {
                None
            }
        }
        (K::NonZero(tag), M::S(s)) => {
            if s.tag == *tag && s.bits != 0 {
                Some(v.clone())
            } else {
                None
            }
        }
        (K::Struct(fs), M::Struct(vs)) => {
            let mut out = vec![];
            for (n, ft) in fs {
                let x = vs.iter().find(|x| x.0 == *n)?;
                out.push((*n, fit(&ft(), &x.1)?));
            }
            Some(M::Struct(out))
        }
        (K::TStruct(fs), M::TStruct(vs)) => Some(M::TStruct(fit_all(fs, vs)?)),
        (K::Tuple(fs), M::Tuple(vs)) => Some(M::Tuple(fit_all(fs, vs)?)),
        (K::Enum(vars), M::Enum(n, k, vs)) => {
            let var = vars.iter().find(|x| x.name == *n)?;
            if var.kind != *k {
                return None;
            }
            let mut out = vec![];
            for (i, (n, ft)) in var.fields.iter().enumerate() {
                let x = if *k == VK::Struct { vs.iter().find(|x| x.0 == *n)? } else { vs.get(i)? };
                out.push((*n, fit(&ft(), &x.1)?));
            }
            Some(M::Enum(var.name, *k, out))
        }
        (K::List(ft), M::List(vs) | M::Array(vs)) => {
            let mut out = vec![];
            for x in vs {
                out.push(fit(&ft(), x)?);
            }
            Some(M::List(out))
        }
        (K::Array(ft, n), M::List(vs) | M::Array(vs)) => {
            let mut out = vec![];
            for x in vs {
                out.push(fit(&ft(), x)?);
            }
            if out.len() == *n {
                Some(M::Array(out))
            } else {
                None
            }
        }
        (K::Map(kt, vt), M::Map(vs)) => {
            let mut out = vec![];
            for (k, x) in vs {
                out.push((fit(&kt(), k)?, fit(&vt(), x)?));
            }
            Some(M::Map(out))
        }
        _ => None,
    }
}
fn fit_all(fs: &[TyFn], vs: &[M]) -> Option<Vec<M>> {
    let mut out = vec![];
    for (i, ft) in fs.iter().enumerate() {
        out.push(fit(&ft(), vs.get(i)?)?);
    }
    Some(out)
}

/// what patching content `a` of type `t` with generic content `v` is meant to do
pub fn patch(t: &Ty, a: &mut M, v: &M) {
    match (&t.k, &mut *a, v) {
        (K::Scalar(_) | K::NonZero(_), _, _) => {
            if let Some(m) = fit(t, v) {
                *a = m;
            }
        }
        (K::Struct(fs), M::Struct(a), M::Struct(vs)) => {
            for (i, (n, ft)) in fs.iter().enumerate() {
                if let Some(x) = vs.iter().find(|x| x.0 == *n) {
                    patch(&ft(), &mut a[i].1, &x.1);
                }
            }
        }
        (K::TStruct(fs), M::TStruct(a), M::TStruct(vs)) | (K::Tuple(fs), M::Tuple(a), M::Tuple(vs)) => {
            for (i, ft) in fs.iter().enumerate() {
                if let Some(x) = vs.get(i) {
                    patch(&ft(), &mut a[i], x);
                }
            }
        }
        (K::Enum(vars), M::Enum(an, ak, af), M::Enum(n, k, vs)) => {
            if str_eq(an, n) {
                if ak != k {
                    return;
                }
                let var = vars.iter().find(|x| x.name == *n).unwrap();
                for (i, (n, ft)) in var.fields.iter().enumerate() {
                    let x = if *k == VK::Struct { vs.iter().find(|x| x.0 == *n) } else { vs.get(i) };
                    if let Some(x) = x {
                        patch(&ft(), &mut af[i].1, &x.1);
                    }
                }
            } else if let Some(m) = fit(t, v) {
                *a = m;
            }
        }
        (K::List(ft), M::List(a), M::List(vs) | M::Array(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                if i < a.len() {
                    patch(&ft(), &mut a[i], x);
                }
            }
        }
        (K::Array(ft, _), M::Array(a), M::List(vs) | M::Array(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                if i < a.len() {
                    patch(&ft(), &mut a[i], x);
                }
            }
        }
        (K::Map(kt, vt), M::Map(a), M::Map(vs)) => {
            for (k, x) in vs {
                if let Some(k) = fit(&kt(), k) {
                    for (ak, ax) in a.iter_mut() {
                        if ak.eq(&k) {
                            patch(&vt(), ax, x);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

/// content of type `t`, or close to it: up to `budget` places hold something else
pub fn near(t: &Ty, budget: &mut usize) -> M {
    if *budget > 0 && flip() {
        *budget -= 1;
        return off(t, budget);
    }
    match &t.k {
        K::Scalar(tag) | K::NonZero(tag) => M::S(Sc::sym(*tag)),
        K::Struct(fs) => M::Struct(fs.iter().map(|(n, f)| (*n, near(&f(), budget))).collect()),
        K::TStruct(fs) => M::TStruct(fs.iter().map(|f| near(&f(), budget)).collect()),
        K::Tuple(fs) => M::Tuple(fs.iter().map(|f| near(&f(), budget)).collect()),
        K::Enum(vars) => {
            let v = &vars[choose(vars.len())];
            M::Enum(v.name, v.kind, v.fields.iter().map(|(n, f)| (*n, near(&f(), budget))).collect())
        }
        K::List(f) => {
            let n = choose(param(1, 2) + 1);
            M::List((0..n).map(|_| near(&f(), budget)).collect())
        }
        K::Array(f, n) => M::Array((0..*n).map(|_| near(&f(), budget)).collect()),
        K::Map(k, v) => {
            // one entry: with more, keys of different kinds are ordered by the code under test
            if flip() {
                M::Map(vec![(near(&k(), budget), near(&v(), budget))])
            } else {
                M::Map(vec![])
            }
        }
    }
}
/// something that is not (quite) content of type `t`
fn off(t: &Ty, budget: &mut usize) -> M {
    match &t.k {
        K::Scalar(tag) | K::NonZero(tag) => {
            let i = choose(15 + 7);
            if i < 15 {
                let other = TAGS[if i < *tag as usize { i } else { i + 1 }];
                return M::S(Sc::sym(other));
            }
            wrong(i - 15)
        }
        K::Struct(fs) => match choose(8) {
            // a field missing
            0 if !fs.is_empty() => {
                let drop = choose(fs.len());
                M::Struct(fs.iter().enumerate().filter(|x| x.0 != drop).map(|(_, (n, f))| (*n, near(&f(), budget))).collect())
            }
            // one more field, in front
            1 => M::Struct(
                std::iter::once(("extra", M::S(Sc::sym(Tag::u32))))
                    .chain(fs.iter().map(|(n, f)| (*n, near(&f(), budget))))
                    .collect(),
            ),
            // the right fields in another kind
            2 => M::TStruct(fs.iter().map(|(_, f)| near(&f(), budget)).collect()),
            // the fields in another order
            3 => M::Struct(fs.iter().rev().map(|(n, f)| (*n, near(&f(), budget))).collect()),
            4 => M::Enum("Off", VK::Struct, fs.iter().map(|(n, f)| (*n, near(&f(), budget))).collect()),
            i => wrong(i.saturating_sub(4)),
        },
        K::TStruct(fs) | K::Tuple(fs) => {
            let st = matches!(t.k, K::TStruct(_));
            let all = |n: usize, budget: &mut usize| fs.iter().take(n).map(|f| near(&f(), budget)).collect::<Vec<_>>();
            match choose(6) {
                0 if !fs.is_empty() => {
                    let v = all(fs.len() - 1, budget);
                    if st {
                        M::TStruct(v)
                    } else {
                        M::Tuple(v)
                    }
                }
                1 => {
                    let mut v = all(fs.len(), budget);
                    v.push(M::S(Sc::sym(Tag::u8)));
                    if st {
                        M::TStruct(v)
                    } else {
                        M::Tuple(v)
                    }
                }
                // the other tuple kind
                2 => {
                    let v = all(fs.len(), budget);
                    if st {
                        M::Tuple(v)
                    } else {
                        M::TStruct(v)
                    }
                }
                3 => M::List(all(fs.len(), budget)),
                4 => M::S(Sc::sym(Tag::u32)),
                _ => M::Struct(vec![]),
            }
        }
        K::Enum(vars) => {
            let v = &vars[choose(vars.len())];
            let mut f: Vec<(&'static str, M)> = v.fields.iter().map(|(n, f)| (*n, near(&f(), budget))).collect();
            match choose(7) {
                // unknown variant
                0 => M::Enum("Elsewhere", v.kind, f),
                // a field missing
                1 if !f.is_empty() => {
                    let i = if v.kind == VK::Struct { choose(f.len()) } else { f.len() - 1 };
                    f.remove(i);
                    M::Enum(v.name, v.kind, f)
                }
                // one more field
                2 if v.kind != VK::Unit => {
                    f.push((if v.kind == VK::Struct { "extra" } else { "" }, M::S(Sc::sym(Tag::u8))));
                    M::Enum(v.name, v.kind, f)
                }
                3 => M::Struct(f.into_iter().enumerate().map(|(i, x)| (["p", "q", "r", "s", "t", "u", "v"][i.min(6)], x.1)).collect()),
                4 => M::S(Sc::sym(Tag::String)),
                5 => M::Tuple(f.into_iter().map(|x| x.1).collect()),
                _ => M::List(vec![]),
            }
        }
        K::List(f) => match choose(5) {
            0 => M::Tuple(vec![near(&f(), budget)]),
            1 => M::TStruct(vec![near(&f(), budget)]),
            2 => M::Map(vec![(M::S(Sc::sym(Tag::usize)), near(&f(), budget))]),
            3 => near(&f(), budget),
            _ => wrong(0),
        },
        K::Array(f, n) => match choose(5) {
            0 if *n > 0 => M::List((0..*n - 1).map(|_| near(&f(), budget)).collect()),
            1 => M::List((0..*n + 1).map(|_| near(&f(), budget)).collect()),
            2 => M::Tuple((0..*n).map(|_| near(&f(), budget)).collect()),
            3 => M::List(vec![]),
            _ => wrong(0),
        },
        K::Map(k, v) => match choose(4) {
            0 => M::List(vec![M::Tuple(vec![near(&k(), budget), near(&v(), budget)])]),
            1 => M::Struct(vec![("a", near(&v(), budget))]),
            2 => near(&v(), budget),
            _ => wrong(0),
        },
    }
}
fn wrong(i: usize) -> M {
    match i {
        0 => M::S(Sc::sym(Tag::i64)),
        1 => M::Struct(vec![]),
        2 => M::Tuple(vec![M::S(Sc::sym(Tag::u32))]),
        3 => M::List(vec![M::S(Sc::sym(Tag::u32))]),
        4 => M::Map(vec![]),
        5 => M::TStruct(vec![M::S(Sc::sym(Tag::u32))]),
        _ => M::Enum("Some", VK::Tuple, vec![("", M::S(Sc::sym(Tag::u32)))]),
    }
}

impl<T: Typed> Typed for Box<T> {
    fn model(&self) -> M {
        (**self).model()
    }
    fn ty() -> Ty {
        T::ty()
    }
}
impl<T: Typed> Typed for Option<T> {
    fn model(&self) -> M {
        match self {
            None => M::Enum("None", VK::Unit, vec![]),
            Some(x) => M::Enum("Some", VK::Tuple, vec![("", x.model())]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Self>(),
            k: K::Enum(vec![
                Var { name: "None", kind: VK::Unit, fields: vec![] },
                Var { name: "Some", kind: VK::Tuple, fields: vec![("", T::ty as TyFn)] },
            ]),
        }
    }
}
impl<T: Typed, E: Typed> Typed for Result<T, E> {
    fn model(&self) -> M {
        match self {
            Ok(x) => M::Enum("Ok", VK::Tuple, vec![("", x.model())]),
            Err(x) => M::Enum("Err", VK::Tuple, vec![("", x.model())]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Self>(),
            k: K::Enum(vec![
                Var { name: "Ok", kind: VK::Tuple, fields: vec![("", T::ty as TyFn)] },
                Var { name: "Err", kind: VK::Tuple, fields: vec![("", E::ty as TyFn)] },
            ]),
        }
    }
}
impl<T: Typed> Typed for Vec<T> {
    fn model(&self) -> M {
        M::List(self.iter().map(|x| x.model()).collect())
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Self>(), k: K::List(T::ty) }
    }
}
impl<T: Typed, const N: usize> Typed for [T; N] {
    fn model(&self) -> M {
        M::Array(self.iter().map(|x| x.model()).collect())
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Self>(), k: K::Array(T::ty, N) }
    }
}
impl<A: Typed, B: Typed> Typed for BTreeMap<A, B> {
    fn model(&self) -> M {
        M::Map(self.iter().map(|(k, x)| (k.model(), x.model())).collect())
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Self>(), k: K::Map(A::ty, B::ty) }
    }
}
macro_rules! typed_tuple {
    ($(($($t:ident $i:tt),*);)*) => { $(
        impl<$($t: Typed),*> Typed for ($($t,)*) {
            fn model(&self) -> M { M::Tuple(vec![$(self.$i.model()),*]) }
            fn ty() -> Ty { Ty { name: std::any::type_name::<Self>(), k: K::Tuple(vec![$($t::ty as TyFn),*]) } }
        }
    )* };
}
typed_tuple! {
    ();
    (A 0);
    (A 0, B 1);
    (A 0, B 1, C 2);
    (A 0, B 1, C 2, D 3);
    (A 0, B 1, C 2, D 3, E 4);
    (A 0, B 1, C 2, D 3, E 4, F 5);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10, L 11);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10, L 11, N 12);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10, L 11, N 12, O 13);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10, L 11, N 12, O 13, P 14);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K_ 10, L 11, N 12, O 13, P 14, Q 15);
}
macro_rules! typed_range {
    ($($t:ident { $($f:ident),* };)*) => { $(
        impl<T: Typed> Typed for std::ops::$t<T> {
            fn model(&self) -> M { M::Struct(vec![$((stringify!($f), self.$f.model())),*]) }
            fn ty() -> Ty {
                Ty { name: std::any::type_name::<Self>(), k: K::Struct(vec![$((stringify!($f), { let _ = stringify!($f); T::ty as TyFn })),*]) }
            }
        }
    )* };
}
typed_range! { Range { start, end }; RangeFrom { start }; RangeTo { end }; RangeToInclusive { end }; }
impl Typed for std::ops::RangeFull {
    fn model(&self) -> M {
        M::Struct(vec![])
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Self>(), k: K::Struct(vec![]) }
    }
}
macro_rules! typed_nonzero {
    ($($t:ident $i:ident;)*) => { $(
        impl Typed for std::num::$t {
            fn model(&self) -> M { M::S(self.get().sc()) }
            fn ty() -> Ty { Ty { name: std::any::type_name::<Self>(), k: K::NonZero(Tag::$i) } }
        }
    )* };
}
typed_nonzero! {
    NonZeroU8 u8; NonZeroU16 u16; NonZeroU32 u32; NonZeroU64 u64; NonZeroU128 u128; NonZeroUsize usize;
    NonZeroI8 i8; NonZeroI16 i16; NonZeroI32 i32; NonZeroI64 i64; NonZeroI128 i128;
}
#[cfg(any(feature = "default-cfg", feature = "core-cfg"))]
mod math {
    use super::*;
    macro_rules! math {
        ($($t:ident { $($f:ident : $ft:ident),* };)*) => { $(
            impl Sym for glam::$t {
                fn sym() -> Self { let mut x = glam::$t::ZERO; $(x.$f = Sym::sym();)* x }
                fn same(&self, o: &Self) -> bool { true $(& self.$f.same(&o.$f))* }
            }
            impl Typed for glam::$t {
                fn model(&self) -> M { M::Struct(vec![$((stringify!($f), self.$f.model())),*]) }
                fn ty() -> Ty {
                    use glam::*;
                    Ty { name: std::any::type_name::<glam::$t>(), k: K::Struct(vec![$((stringify!($f), <$ft as Typed>::ty as TyFn)),*]) }
                }
            }
        )* };
    }
    math! { Vec2 { x: f32, y: f32 }; Vec3 { x: f32, y: f32, z: f32 }; Mat3 { x_axis: Vec3, y_axis: Vec3, z_axis: Vec3 }; }
    impl Sym for macaw::ColorRgba8 {
        fn sym() -> Self {
            macaw::ColorRgba8(Sym::sym())
        }
        fn same(&self, o: &Self) -> bool {
            self.0.same(&o.0)
        }
    }
    impl Typed for macaw::ColorRgba8 {
        fn model(&self) -> M {
            M::TStruct(vec![self.0.model()])
        }
        fn ty() -> Ty {
            Ty { name: std::any::type_name::<Self>(), k: K::TStruct(vec![<[u8; 4] as Typed>::ty as TyFn]) }
        }
    }
}

// ---- changing every leaf -------------------------------------------------------------------

impl Sc {
    /// another scalar of the same kind
    pub fn poked(&self) -> Sc {
        let mut r = self.clone();
        match self.tag {
            Tag::String => r.s.push('!'),
            Tag::char => r.bits = if self.bits == 'a' as u128 { 'b' as u128 } else { 'a' as u128 },
            _ => r.bits ^= 1,
        }
        r
    }
}
/// change every leaf through its mutable view
pub fn poke_scalar(s: ScalarMut<'_>) {
    match s {
        ScalarMut::usize(x) => *x ^= 1,
        ScalarMut::u8(x) => *x ^= 1,
        ScalarMut::u16(x) => *x ^= 1,
        ScalarMut::u32(x) => *x ^= 1,
        ScalarMut::u64(x) => *x ^= 1,
        ScalarMut::u128(x) => *x ^= 1,
        ScalarMut::i8(x) => *x ^= 1,
        ScalarMut::i16(x) => *x ^= 1,
        ScalarMut::i32(x) => *x ^= 1,
        ScalarMut::i64(x) => *x ^= 1,
        ScalarMut::i128(x) => *x ^= 1,
        ScalarMut::bool(x) => *x ^= true,
        ScalarMut::char(x) => *x = if *x == 'a' { 'b' } else { 'a' },
        ScalarMut::f32(x) => *x = f32::from_bits(x.to_bits() ^ 1),
        ScalarMut::f64(x) => *x = f64::from_bits(x.to_bits() ^ 1),
        ScalarMut::String(x) => x.push('!'),
    }
}
impl M {
    /// the content after every leaf (map keys aside) was poked
    pub fn poked(&self) -> M {
        let all = |f: &Vec<M>| f.iter().map(|m| m.poked()).collect::<Vec<_>>();
        let named = |f: &Vec<(&'static str, M)>| f.iter().map(|(n, m)| (*n, m.poked())).collect::<Vec<_>>();
        match self {
            M::S(s) => M::S(s.poked()),
            M::Struct(f) => M::Struct(named(f)),
            M::TStruct(f) => M::TStruct(all(f)),
            M::Tuple(f) => M::Tuple(all(f)),
            M::Enum(n, k, f) => M::Enum(n, *k, named(f)),
            M::List(f) => M::List(all(f)),
            M::Array(f) => M::Array(all(f)),
            M::Map(f) => M::Map(f.iter().map(|(k, v)| (k.clone(), v.poked())).collect()),
        }
    }
    /// number of leaves, map keys aside
    pub fn leaves(&self) -> usize {
        match self {
            M::S(_) => 1,
            M::Struct(f) | M::Enum(_, _, f) => f.iter().map(|x| x.1.leaves()).sum(),
            M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Array(f) => f.iter().map(|x| x.leaves()).sum(),
            M::Map(f) => f.iter().map(|x| x.1.leaves()).sum(),
        }
    }
    pub fn kind(&self) -> Kind {
        match self {
            M::S(_) => Kind::Scalar,
            M::Struct(_) => Kind::Struct,
            M::TStruct(_) => Kind::TStruct,
            M::Tuple(_) => Kind::Tuple,
            M::Enum(..) => Kind::Enum,
            M::List(_) => Kind::List,
            M::Array(_) => Kind::Array,
            M::Map(_) => Kind::Map,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Scalar,
    Struct,
    TStruct,
    Tuple,
    Enum,
    List,
    Array,
    Map,
    Opaque,
}
/// change every leaf of a value, reaching each by position
pub fn poke(v: &mut dyn Reflect) {
    match v.reflect_mut() {
        ReflectMut::Scalar(s) => poke_scalar(s),
        ReflectMut::Struct(s) => {
            for i in 0..s.fields_len() {
                poke(s.field_at_mut(i).unwrap())
            }
        }
        ReflectMut::TupleStruct(s) => {
            for i in 0..s.fields_len() {
                poke(s.field_at_mut(i).unwrap())
            }
        }
        ReflectMut::Tuple(s) => {
            for i in 0..s.fields_len() {
                poke(s.field_at_mut(i).unwrap())
            }
        }
        ReflectMut::Enum(s) => {
            for i in 0..s.fields_len() {
                poke(s.field_at_mut(i).unwrap())
            }
        }
        ReflectMut::List(s) => {
            for i in 0..s.len() {
                poke(s.get_mut(i).unwrap())
            }
        }
        ReflectMut::Array(s) => {
            for i in 0..s.len() {
                poke(s.get_mut(i).unwrap())
            }
        }
        ReflectMut::Map(s) => {
            for (_, x) in s.iter_mut() {
                poke(x)
            }
        }
        ReflectMut::Opaque(_) => {}
    }
}

// ---- paths ---------------------------------------------------------------------------------

#[derive(Clone)]
pub enum Step {
    Named(String),
    Num(usize),
    Get(M),
    Variant(String),
}
/// how a path is built is part of what is checked: methods, keys, and pushes all have to agree
pub fn key_path_of(steps: &[Step]) -> key_path::KeyPath {
    let mut p = key_path::KeyPath::default();
    for s in steps {
        match s {
            Step::Named(n) => p.push_field(n),
            Step::Num(i) => p.push_field(*i),
            Step::Get(k) => p.push_get(k.value()),
            Step::Variant(n) => p.push_variant(n),
        }
    }
    p
}
fn at_field<'a>(f: &'a [(&'static str, M)], n: &str) -> Option<&'a M> {
    f.iter().find(|x| str_eq(x.0, n)).map(|x| &x.1)
}
/// what a path is meant to lead to
pub fn nav<'a>(m: &'a M, steps: &[Step]) -> Option<&'a M> {
    let mut m = m;
    for s in steps {
        m = match (s, m) {
            (Step::Named(n), M::Struct(f)) => at_field(f, n)?,
            (Step::Named(n), M::Enum(_, VK::Struct, f)) => at_field(f, n)?,
            (Step::Num(i), M::TStruct(f) | M::Tuple(f)) => nth(f, *i)?,
            (Step::Num(i), M::Enum(_, VK::Tuple, f)) => &nth(f, *i)?.1,
            (Step::Get(M::S(k)), M::List(f) | M::Array(f)) => nth(f, k.index()?)?,
            (Step::Get(k), M::Map(f)) => &f.iter().find(|x| x.0.eq(k))?.1,
            (Step::Variant(n), M::Enum(v, ..)) => {
                if str_eq(n, v) {
                    m
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
    Some(m)
}
/// the element at a (symbolic) index, one path per element
pub fn nth<T>(f: &[T], i: usize) -> Option<&T> {
    for (k, x) in f.iter().enumerate() {
        if k == i {
            return Some(x);
        }
    }
    None
}
/// the content after what the path leads to was poked
pub fn poked_at(m: &M, steps: &[Step]) -> M {
    let Some(s) = steps.first() else { return m.poked() };
    let rest = &steps[1..];
    let upd = |f: &Vec<M>, i: usize| {
        f.iter().enumerate().map(|(k, x)| if k == i { poked_at(x, rest) } else { x.clone() }).collect::<Vec<_>>()
    };
    let named = |f: &Vec<(&'static str, M)>, n: &str| {
        f.iter().map(|(k, x)| (*k, if str_eq(k, n) { poked_at(x, rest) } else { x.clone() })).collect::<Vec<_>>()
    };
    match (s, m) {
        (Step::Named(n), M::Struct(f)) => M::Struct(named(f, n)),
        (Step::Named(n), M::Enum(v, VK::Struct, f)) => M::Enum(v, VK::Struct, named(f, n)),
        (Step::Num(i), M::TStruct(f)) => M::TStruct(upd(f, *i)),
        (Step::Num(i), M::Tuple(f)) => M::Tuple(upd(f, *i)),
        (Step::Num(i), M::Enum(v, VK::Tuple, f)) => M::Enum(
            v,
            VK::Tuple,
            f.iter().enumerate().map(|(k, x)| (x.0, if k == *i { poked_at(&x.1, rest) } else { x.1.clone() })).collect(),
        ),
        (Step::Get(M::S(k)), M::List(f)) => M::List(upd(f, k.index().unwrap())),
        (Step::Get(M::S(k)), M::Array(f)) => M::Array(upd(f, k.index().unwrap())),
        (Step::Get(k), M::Map(f)) => {
            M::Map(f.iter().map(|(q, x)| (q.clone(), if q.eq(k) { poked_at(x, rest) } else { x.clone() })).collect())
        }
        (Step::Variant(_), M::Enum(..)) => poked_at(m, rest),
        _ => m.clone(),
    }
}
const INTS: [Tag; 11] =
    [Tag::usize, Tag::u8, Tag::u16, Tag::u32, Tag::u64, Tag::u128, Tag::i8, Tag::i16, Tag::i32, Tag::i64, Tag::i128];
/// every path of up to `depth` steps through the content, and paths that leave it
pub fn path(m: &M, depth: usize) -> Vec<Step> {
    let mut out = Vec::new();
    let mut m = m;
    for d in 0..depth {
        // most of the steps that don't fit are only tried as the last step
        let fits: usize = match m {
            M::Struct(f) => f.len(),
            M::Enum(_, VK::Struct, f) => 1 + f.len(),
            M::Enum(_, VK::Tuple, _) => 2,
            M::Enum(_, VK::Unit, _) => 1,
            M::TStruct(_) | M::Tuple(_) | M::List(_) | M::Array(_) | M::Map(_) => 1,
            M::S(_) => 0,
        };
        let c = choose(1 + fits + 1);
        if c == 0 {
            return out;
        }
        if c == 1 + fits {
            out.push(stray(m));
            if d + 1 < depth && flip() {
                out.push(Step::Num(0));
            }
            return out;
        }
        let i = c - 1;
        let s = match m {
            M::Struct(f) => Step::Named(f[i].0.to_string()),
            M::Enum(n, ..) if i == 0 => Step::Variant(n.to_string()),
            M::Enum(_, VK::Struct, f) => Step::Named(f[i - 1].0.to_string()),
            M::Enum(_, _, _) | M::TStruct(_) | M::Tuple(_) => Step::Num(Sym::sym()),
            M::List(_) | M::Array(_) => Step::Get(M::S(Sc::sym(if d == 0 { INTS[choose(11)] } else { Tag::i64 }))),
            M::Map(f) => Step::Get(match f.first() {
                Some((M::S(k), _)) => M::S(Sc::sym(k.tag)),
                Some((k, _)) => k.clone(),
                None => M::S(Sc::sym(Tag::u8)),
            }),
            M::S(_) => unreachable!(),
        };
        out.push(s);
        match nav(m, &out[out.len() - 1..]) {
            Some(n) => m = n,
            None => return out,
        }
    }
    out
}
/// a step of any kind
fn stray(m: &M) -> Step {
    match choose(5) {
        0 => Step::Named(ascii(1)),
        1 => Step::Num(Sym::sym()),
        2 => Step::Get(M::S(Sc::sym(match m {
            // not the type of the keys
            M::Map(f) => match f.first() {
                Some((M::S(k), _)) if k.tag == Tag::u16 => Tag::u8,
                _ => Tag::u16,
            },
            _ => TAGS[choose(16)],
        }))),
        3 => Step::Variant(match m {
            M::Enum(v, ..) => {
                let mut s = v.to_string();
                s.push('x');
                s
            }
            _ => ascii(1),
        }),
        _ => Step::Get(M::List(vec![])),
    }
}

/// the name of a field, a name one letter away from it, or any short name
pub fn near_name(f: &[(&'static str, M)]) -> String {
    let c = choose(f.len() + 1);
    if c == f.len() || f[c].0.is_empty() {
        return ascii(1);
    }
    let mut b = f[c].0.as_bytes().to_vec();
    let i = match choose(4) {
        0 => return f[c].0.to_string(),
        1 => 0,
        2 => b.len() - 1,
        _ => {
            b.push(b'?');
            b.len() - 1
        }
    };
    b[i] = any_u8();
    assume(b[i] < 0x80);
    // Safety: the names in the zoo are ASCII
    unsafe { String::from_utf8_unchecked(b) }
}

impl Sc {
    /// order of scalars of the same kind
    pub fn less(&self, o: &Sc) -> bool {
        let (a, b) = (self.bits, o.bits);
        match self.tag {
            Tag::i8 => (a as i8) < b as i8,
            Tag::i16 => (a as i16) < b as i16,
            Tag::i32 => (a as i32) < b as i32,
            Tag::i64 => (a as i64) < b as i64,
            Tag::i128 => (a as i128) < b as i128,
            Tag::String => {
                let (a, b) = (self.s.as_bytes(), o.s.as_bytes());
                for i in 0..a.len() {
                    if i >= b.len() {
                        return false;
                    }
                    if a[i] != b[i] {
                        return a[i] < b[i];
                    }
                }
                a.len() < b.len()
            }
            _ => a < b,
        }
    }
}
