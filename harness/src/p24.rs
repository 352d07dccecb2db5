//! P24: a reflected value prints as it prints itself; a type prints as its definition, with simplified names
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Write};
use std::ops::*;

/// values whose text is short: one figure, one letter
trait Fig {
    fn fig() -> Self;
}
impl Fig for u8 {
    fn fig() -> u8 {
        let x = any_u8();
        assume(x < 10);
        x
    }
}
impl Fig for bool {
    fn fig() -> bool {
        flip()
    }
}
impl Fig for String {
    fn fig() -> String {
        let c = any_u8();
        assume((c >= b'a') & (c <= b'z'));
        String::from(c as char)
    }
}
impl<T: Fig> Fig for Option<T> {
    fn fig() -> Self {
        if flip() {
            Some(T::fig())
        } else {
            None
        }
    }
}
impl<T: Fig, E: Fig> Fig for Result<T, E> {
    fn fig() -> Self {
        if flip() {
            Ok(T::fig())
        } else {
            Err(E::fig())
        }
    }
}
impl<T: Fig> Fig for Box<T> {
    fn fig() -> Self {
        Box::new(T::fig())
    }
}
impl<T: Fig> Fig for Vec<T> {
    fn fig() -> Self {
        let n = choose(param(1, 2) + 1);
        (0..n).map(|_| T::fig()).collect()
    }
}
impl<T: Fig, const N: usize> Fig for [T; N] {
    fn fig() -> Self {
        std::array::from_fn(|_| T::fig())
    }
}
impl<T: Fig, U: Fig> Fig for (T, U) {
    fn fig() -> Self {
        (T::fig(), U::fig())
    }
}
impl<V: Fig> Fig for BTreeMap<u8, V> {
    fn fig() -> Self {
        let n = choose(param(2, 2) + 1) as u8;
        (0..n).map(|i| (3 * i, V::fig())).collect()
    }
}

macro_rules! types {
    ($($(struct $(#[$m:meta])* $s:ident {$($(#[$a:meta])* $f:ident: $t:ty,)*})? $(tuple $(#[$n:meta])* $u:ident ($($(#[$b:meta])* $i:ident $v:ty,)*))?;)*) => { $(
        $(
            #[derive(Reflect)]
            $(#[$m])*
            pub struct $s {
                $($(#[$a])* pub $f: $t,)*
            }
            impl Fig for $s {
                fn fig() -> Self { $s { $($f: Fig::fig(),)* } }
            }
        )?
        $(
            #[derive(Reflect)]
            $(#[$n])*
            pub struct $u($($(#[$b])* pub $v,)*);
            impl Fig for $u {
                fn fig() -> Self { $u($(<$v as Fig>::fig(),)*) }
            }
        )?
    )* };
}
types! {
    struct #[derive(Clone, Debug)] Own { a: u8, b: bool, c: String, d: Option<u8>, };
    tuple #[derive(Clone, Debug)] OwnTuple(a u8, b Vec<bool>,);
    struct #[derive(Clone, Debug)] OwnNone {};
    tuple #[derive(Clone, Debug)] OwnBox(a Box<u8>, b [bool; 2],);
    // what it hides shows in its own form only
    struct #[derive(Clone, Debug)] OwnSkip { a: u8, #[reflect(skip)] b: u8, };
    struct #[derive(Clone)] #[reflect(opt_out(Debug))] Out { a: u8, #[reflect(skip)] h: u8, b: bool, c: Own, d: Option<OutTuple>, };
    tuple #[derive(Clone)] #[reflect(opt_out(Debug))] OutTuple(a u8, #[reflect(skip)] h u8, b Vec<OwnTuple>,);
    struct #[derive(Clone)] #[reflect(opt_out(Debug))] OutNone {};
    tuple #[derive(Clone)] #[reflect(opt_out(Debug))] OutMap(a BTreeMap<u8, OwnSkip>, b [OwnNone; 1], c Box<OwnTuple>,);
}
#[derive(Reflect, Clone, Debug)]
pub enum OwnEnum {
    A { x: u8, y: bool },
    B(u8, bool),
    C,
    D {},
    E(),
}
impl Fig for OwnEnum {
    fn fig() -> Self {
        match choose(5) {
            0 => OwnEnum::A {
                x: u8::fig(),
                y: Fig::fig(),
            },
            1 => OwnEnum::B(u8::fig(), Fig::fig()),
            2 => OwnEnum::C,
            3 => OwnEnum::D {},
            _ => OwnEnum::E(),
        }
    }
}
/// its own form is another than the derived one
#[derive(Reflect, Clone)]
pub struct Odd(u8, bool);
impl Debug for Odd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            f.write_str("odd!")
        } else {
            write!(f, "<{}>", self.0)
        }
    }
}
impl Fig for Odd {
    fn fig() -> Self {
        Odd(u8::fig(), Fig::fig())
    }
}
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub enum OutEnum {
    A {
        x: u8,
        #[reflect(skip)]
        h: u8,
        y: Odd,
    },
    B(#[reflect(skip)] u8, u8, Own),
    C,
    D {},
    E(),
}
impl Fig for OutEnum {
    fn fig() -> Self {
        match choose(5) {
            0 => OutEnum::A {
                x: u8::fig(),
                h: u8::fig(),
                y: Fig::fig(),
            },
            1 => OutEnum::B(
                u8::fig(),
                u8::fig(),
                Own {
                    a: u8::fig(),
                    b: false,
                    c: String::new(),
                    d: None,
                },
            ),
            2 => OutEnum::C,
            3 => OutEnum::D {},
            _ => OutEnum::E(),
        }
    }
}

/// the texts of two values are the same, plain and in the long form
fn alike(a: &dyn Debug, b: &dyn Debug, id: u32) {
    let (a, b) = if flip() {
        (format!("{a:?}"), format!("{b:?}"))
    } else {
        (format!("{a:#?}"), format!("{b:#?}"))
    };
    check(str_eq(&a, &b), id);
}
fn seen(x: &dyn Reflect, own: &dyn Debug) {
    match choose(4) {
        0 => alike(&x, own, 1),
        1 => alike(&&*x.clone_reflect(), own, 2),
        2 => {
            let r = x.reflect_ref();
            alike(&r.as_reflect(), own, 3)
        }
        _ => match x.reflect_ref() {
            ReflectRef::Struct(s) => alike(&s, own, 4),
            ReflectRef::TupleStruct(s) => alike(&s, own, 5),
            ReflectRef::Tuple(s) => alike(&s, own, 6),
            ReflectRef::Enum(s) => alike(&s, own, 7),
            ReflectRef::List(s) => alike(&s, own, 8),
            ReflectRef::Array(s) => alike(&s, own, 9),
            ReflectRef::Map(s) => alike(&s, own, 10),
            ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => {}
        },
    }
    cover(0);
}
fn own<T: Fig + Reflect + Debug>() {
    let x = T::fig();
    seen(&x, &x);
}
/// a generic value, too
fn generic<T: Fig + Reflect>() {
    let x = T::fig();
    let v = x.to_value();
    match &v {
        Value::StructValue(s) => seen(&**s, &**s),
        Value::EnumValue(s) => seen(&**s, &**s),
        Value::TupleStructValue(s) => seen(s, s),
        Value::TupleValue(s) => seen(s, s),
        Value::List(s) => seen(s, s),
        Value::Map(s) => seen(s, s),
        _ => {}
    }
    cover(1);
}
macro_rules! wide {
    ($x:ident: $($t:ident)*; $e:expr) => {
        match choose(12) {
            $(i if i == Tag::$t as usize => {
                // (text of more than 16 digits of 128 bits takes 256 bits to make)
                let big = std::mem::size_of::<$t>() < 16;
                let $x = [0 as $t, 1 as $t, 77 as $t, if big { $t::MAX } else { 3 }, if big { $t::MIN } else { 4 }][choose(5)];
                $e
            })*
            _ => {}
        }
    };
}
fn scalars() {
    match choose(8) {
        0 => own::<u8>(),
        1 => {
            let x = -(u8::fig() as i8);
            seen(&x, &x)
        }
        2 => own::<bool>(),
        3 => own::<String>(),
        4 => {
            let x = std::num::NonZeroU8::new(u8::fig() + 1).unwrap();
            seen(&x, &x)
        }
        5 => {
            let c = any_u8();
            assume(c < 0x80);
            let c = c as char;
            seen(&c, &c)
        }
        6 => {
            let x = [0.0f64, -0.0, 1.5, f64::NAN, f64::INFINITY, -1e300][choose(6)];
            if flip() {
                seen(&x, &x)
            } else {
                let x = x as f32;
                seen(&x, &x)
            }
        }
        _ => wide!(x: usize u16 u32 u64 u128 i16 i32 i64 i128; seen(&x, &x)),
    }
}

/// the text of an opted out value
struct Text<'a, T>(&'a T);
impl Debug for Text<'_, Out> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct(std::any::type_name::<Out>())
            .field("a", &self.0.a)
            .field("b", &self.0.b)
            .field("c", &self.0.c)
            .field("d", &self.0.d.as_ref().map(Text))
            .finish()
    }
}
impl Debug for Text<'_, OutTuple> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple(std::any::type_name::<OutTuple>())
            .field(&self.0 .0)
            .field(&self.0 .2)
            .finish()
    }
}
impl Debug for Text<'_, OutNone> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct(std::any::type_name::<OutNone>()).finish()
    }
}
impl Debug for Text<'_, OutMap> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple(std::any::type_name::<OutMap>())
            .field(&self.0 .0)
            .field(&self.0 .1)
            .field(&self.0 .2)
            .finish()
    }
}
impl Debug for Text<'_, OutEnum> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            OutEnum::A { x, y, .. } => f.debug_struct("A").field("x", x).field("y", y).finish(),
            OutEnum::B(_, a, b) => f.debug_tuple("B").field(a).field(b).finish(),
            OutEnum::C => f.write_str("C"),
            OutEnum::D {} => f.debug_struct("D").finish(),
            OutEnum::E() => f.debug_tuple("E").finish(),
        }
    }
}
fn out<T: Fig + Reflect>()
where
    for<'a> Text<'a, T>: Debug,
{
    let x = T::fig();
    seen(&x, &Text(&x));
}

// types

/// without the paths
fn simple(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && (b[j] == b'_' || b[j].is_ascii_alphanumeric()) {
            j += 1;
        }
        if j == i {
            out.push(b[i] as char);
            i += 1;
        } else if b[j..].starts_with(b"::") {
            i = j + 2;
        } else {
            out.push_str(&s[i..j]);
            i = j;
        }
    }
    out
}
fn name(t: TyFn) -> String {
    simple(t().name)
}
fn row(f: &[TyFn]) -> String {
    let f: Vec<String> = f.iter().map(|f| name(*f)).collect();
    f.join(", ")
}
fn pretty(t: &Ty) -> String {
    let n = simple(t.name);
    let mut s = String::new();
    match &t.k {
        K::Scalar(_) | K::NonZero(_) => s = n,
        K::Struct(f) => {
            let _ = write!(s, "struct {n} {{");
            if !f.is_empty() {
                s.push('\n');
            }
            for (n, t) in f {
                let _ = write!(s, "    {n}: {},\n", name(*t));
            }
            s.push('}');
        }
        K::TStruct(f) => {
            let _ = write!(s, "struct {n}({})", row(f));
        }
        K::Tuple(f) => {
            let _ = write!(s, "({})", row(f));
        }
        K::Enum(vs) => {
            let _ = write!(s, "enum {n} {{\n");
            for v in vs {
                let _ = write!(s, "    {}", v.name);
                match v.kind {
                    VK::Unit => {}
                    VK::Tuple => {
                        let f: Vec<TyFn> = v.fields.iter().map(|f| f.1).collect();
                        let _ = write!(s, "({})", row(&f));
                    }
                    VK::Struct => {
                        s.push_str(" {");
                        for (i, (n, t)) in v.fields.iter().enumerate() {
                            if i == 0 {
                                s.push('\n');
                            }
                            let _ = write!(s, "        {n}: {},\n", name(*t));
                        }
                        s.push_str(if v.fields.is_empty() { "}" } else { "    }" });
                    }
                }
                s.push_str(",\n");
            }
            s.push('}');
        }
        K::List(t) => {
            let _ = write!(s, "[{}]", name(*t));
        }
        K::Array(t, n) => {
            let _ = write!(s, "[{}; {n}]", name(*t));
        }
        K::Map(k, v) => {
            let _ = write!(s, "[{}: {}]", name(*k), name(*v));
        }
    }
    s
}
fn type_text<T: Typed + DescribeType>() {
    let want = pretty(&T::ty());
    let d = <T as DescribeType>::type_descriptor();
    check(str_eq(&d.pretty_print_root().to_string(), &want), 1);
    let t = d.get_type();
    check(str_eq(&t.pretty_print_root().to_string(), &want), 2);
    let own = match t {
        Type::Struct(t) => t.pretty_print_root().to_string(),
        Type::TupleStruct(t) => t.pretty_print_root().to_string(),
        Type::Tuple(t) => t.pretty_print_root().to_string(),
        Type::Enum(t) => t.pretty_print_root().to_string(),
        Type::List(t) => t.pretty_print_root().to_string(),
        Type::Array(t) => t.pretty_print_root().to_string(),
        Type::Map(t) => t.pretty_print_root().to_string(),
        Type::Scalar(t) => t.pretty_print_root().to_string(),
        Type::Opaque(t) => t.pretty_print_root().to_string(),
    };
    check(str_eq(&own, &want), 3);
    check(str_eq(&SimpleTypeName::new_from_type::<T>().to_string(), &simple(T::ty().name)), 4);
    cover(0);
}
pub mod __deep {
    pub mod m0d {
        use super::super::*;
        #[allow(non_camel_case_types)]
        #[derive(Reflect, Clone, Debug)]
        pub struct _Hid_den2<T: Reflect + FromReflect + DescribeType + Clone + Debug>(pub T);
    }
}
use __deep::m0d::_Hid_den2;
/// the names alone
fn names() {
    macro_rules! each {
        ($($i:literal $t:ty;)*) => {
            match choose(18) {
                $($i => check(str_eq(&SimpleTypeName::new_from_type::<$t>().to_string(), &simple(std::any::type_name::<$t>())), $i),)*
                _ => {}
            }
        };
    }
    each! {
        0 u8; 1 String; 2 Option<String>; 3 Vec<Option<Named>>; 4 BTreeMap<u8, Vec<Pair>>; 5 (); 6 (u8,); 7 (u8, Pair);
        8 ((u8,), [Pair; 3]); 9 [[u8; 2]; 0]; 10 _Hid_den2<_Hid_den2<u8>>; 11 &'static Named; 12 &'static mut Pair;
        13 Gen<(Small, [Option<Pair>; 1])>; 14 Result<Box<Pair>, String>; 15 Range<u8>; 16 glam::Vec3; 17 Result<(), ()>;
    }
    cover(0);
}
#[derive(Reflect, Clone, Debug)]
pub struct Life<'a: 'static, T: FromReflect + DescribeType + Clone + Debug + Sync, const N: usize> {
    t: T,
    #[reflect(skip)]
    a: std::marker::PhantomData<&'a u8>,
}
#[derive(Reflect, Clone, Debug)]
pub struct OnlyLife<'a: 'static> {
    #[reflect(skip)]
    a: std::marker::PhantomData<&'a u8>,
}
/// lifetimes are no part of the names
fn lifetimes() {
    check(str_eq(&SimpleTypeName::new_from_type::<Life<'static, Pair, 7>>().to_string(), "Life<Pair, 7>"), 1);
    check(str_eq(&SimpleTypeName::new_from_type::<[OnlyLife<'static>; 2]>().to_string(), "[OnlyLife; 2]"), 2);
    check(str_eq(&SimpleTypeName::new_from_type::<&'static OnlyLife<'static>>().to_string(), "&OnlyLife"), 3);
    let d = <OnlyLife<'static> as DescribeType>::type_descriptor();
    check(str_eq(&d.pretty_print_root().to_string(), "struct OnlyLife {}"), 4);
    let d = <Life<'static, u8, 3> as DescribeType>::type_descriptor();
    check(str_eq(&d.pretty_print_root().to_string(), "struct Life<u8, 3> {\n    t: u8,\n}"), 5);
    cover(0);
}
/// any identifier
fn any_name() {
    let c = any_u8();
    assume((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z'));
    let a = c as char;
    let (full, short) = match choose(5) {
        0 => (format!("m1::m2::{a}1"), format!("{a}1")),
        1 => (format!("{a}1::T2<m1::T3>"), format!("T2<T3>")),
        2 => (format!("m1::T2<m2::{a}1, [n3::T4; 7]>"), format!("T2<{a}1, [T4; 7]>")),
        3 => (format!("(m1::{a}1,)"), format!("({a}1,)")),
        _ => (format!("m1::_::T1<m2::_::_::{a}1>"), format!("T1<{a}1>")),
    };
    match SimpleTypeName::new(&full) {
        Some(n) => check(str_eq(&n.to_string(), &short), 1),
        None => check(false, 2),
    }
    cover(0);
}
/// what isn't a type has no name; printing a type that has no simplified name gives the whole name
fn odd_name() {
    let full = ["", "a b", "m::<", "1", "a::{{closure}}::T"][choose(5)];
    check(SimpleTypeName::new(full).is_none(), 1);
    cover(0);
}
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub struct Marked<T: 'static + Send + Sync>
where
    T: Clone + Debug,
{
    pub a: u8,
    #[reflect(skip)]
    pub t: std::marker::PhantomData<T>,
}
mod dyn_fn {
    pub type F = fn();
}
fn unprintable() {
    macro_rules! each {
        ($($i:literal $t:ty, $n:literal;)*) => {
            match choose(4) {
                $($i => {
                    let d = <Marked<$t> as DescribeType>::type_descriptor();
                    let mut s = String::new();
                    check(write!(s, "{}", d.pretty_print_root()).is_ok(), 1);
                    let want = if $n.is_empty() { std::any::type_name::<Marked<$t>>() } else { $n };
                    check(str_eq(&s, &format!("struct {want} {{\n    a: u8,\n}}")), 2);
                })*
                _ => {}
            }
        };
    }
    each! {
        0 u8, "Marked<u8>"; 1 fn(u8) -> bool, ""; 2 &'static [u8], ""; 3 dyn_fn::F, "";
    }
    cover(0);
}

entries! {
    p24_own: own::<Own>();
    p24_own_tuple: own::<OwnTuple>();
    p24_own_none: own::<OwnNone>();
    p24_own_box: own::<OwnBox>();
    p24_own_skip: own::<OwnSkip>();
    p24_own_enum: own::<OwnEnum>();
    p24_own_odd: own::<Odd>();
    p24_own_option: own::<Option<Result<Own, u8>>>();
    p24_own_list: own::<Vec<Odd>>();
    p24_own_array: own::<[Own; 1]>();
    p24_own_map: own::<BTreeMap<u8, OwnTuple>>();
    p24_own_boxed: own::<Box<u8>>();
    p24_own_box_list: own::<Box<Vec<OwnEnum>>>();
    p24_scalars: scalars();
    p24_out: out::<Out>();
    p24_out_tuple: out::<OutTuple>();
    p24_out_none: out::<OutNone>();
    p24_out_map: out::<OutMap>();
    p24_out_enum: out::<OutEnum>();
    p24_g_own: generic::<Own>();
    p24_g_tuple: generic::<OwnTuple>();
    p24_g_enum: generic::<OwnEnum>();
    p24_g_pair: generic::<(u8, bool)>();
    p24_names: names();
    p24_lifetimes: lifetimes();
    p24_any_name: any_name();
    p24_odd_name: odd_name();
    p24_unprintable: unprintable();
    p24_t_scalars: type_text::<Scalars>();
    p24_t_named: type_text::<Named>();
    p24_t_triple: type_text::<Triple>();
    p24_t_unit: type_text::<Unit>();
    p24_t_empty: type_text::<Empty>();
    p24_t_empty_tuple: type_text::<EmptyTuple>();
    p24_t_shape: type_text::<Shape>();
    p24_t_small: type_text::<Small>();
    p24_t_deep: type_text::<Deep>();
    p24_t_deep_a: type_text::<DeepA>();
    p24_t_listed: type_text::<Listed>();
    p24_t_tree: type_text::<Tree>();
    p24_t_expr: type_text::<Expr>();
    p24_t_skip: type_text::<SkipNamed>();
    p24_t_skip_tuple: type_text::<SkipTuple>();
    p24_t_skip_enum: type_text::<SkipEnum>();
    p24_t_words: type_text::<WordsEnum>();
    p24_t_wide_tuple: type_text::<WideTuple>();
    p24_t_gen: type_text::<Gen<Gen<u8>>>();
    p24_t_tuple3: type_text::<(u8, Pair, (i8, bool))>();
    p24_t_tuple0: type_text::<()>();
    p24_t_list: type_text::<Vec<(u8, Pair)>>();
    p24_t_array: type_text::<[Option<Pair>; 3]>();
    p24_t_map: type_text::<BTreeMap<String, Vec<Pair>>>();
    p24_t_option: type_text::<Option<Pair>>();
    p24_t_range: type_text::<Range<u32>>();
    p24_t_string: type_text::<String>();
    p24_t_nz: type_text::<std::num::NonZeroU8>();
    p24_t_vec3d: type_text::<glam::Vec3>();
}
