//! P18: the typed field helpers give exactly the part of that name, position or key, and only as its own type
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::enum_::EnumValue;
use mirror_mirror::get_field::*;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// what was found, and what should be
fn found<T: Typed>(x: Option<&T>, want: Option<&M>, id: u32) {
    match (x, want) {
        (Some(x), Some(m)) => check(x.model().eq(m), id),
        (None, None) => {}
        _ => check(false, id + 1),
    }
}
/// only scalars of this kind (or everything, when the parts are compared as they are)
fn is<'a>(m: Option<&'a M>, t: Tag) -> Option<&'a M> {
    match m {
        Some(M::S(s)) if s.tag == t => m,
        _ => None,
    }
}
fn named<'a>(m: &'a M, n: &str) -> Option<&'a M> {
    match m {
        M::Struct(f) | M::Enum(_, VK::Struct, f) => f.iter().find(|x| str_eq(x.0, n)).map(|x| &x.1),
        _ => None,
    }
}
fn at(m: &M, i: usize) -> Option<&M> {
    match m {
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Array(f) => nth(f, i),
        M::Enum(_, _, f) => nth(f, i).map(|x| &x.1),
        _ => None,
    }
}
fn names(m: &M) -> Vec<(&'static str, M)> {
    match m {
        M::Struct(f) | M::Enum(_, _, f) => f.clone(),
        _ => vec![],
    }
}
/// each kind of part in turn, read and changed; `$x` is evaluated again for each
macro_rules! by {
    ($x:expr, $y:expr, $key:expr, $want:expr, $rest:expr, $($t:ty : $tag:ident),*) => {{
        let want: Option<M> = $want;
        $(
            found::<$t>($x.get_field::<$t>($key), is(want.as_ref(), Tag::$tag), 1);
            if flip() {
                match ($y.get_field_mut::<$t>($key), is(want.as_ref(), Tag::$tag)) {
                    (Some(p), Some(m)) => {
                        check(p.model().eq(m), 3);
                        poke(p);
                        $rest
                        return;
                    }
                    (None, None) => {}
                    _ => check(false, 4),
                }
            }
        )*
    }};
}
/// the content with the part that was changed
fn changed_at(m: &M, i: usize) -> M {
    match m {
        M::Struct(f) => {
            let mut f = f.clone();
            f[i].1 = f[i].1.poked();
            M::Struct(f)
        }
        M::Enum(n, k, f) => {
            let mut f = f.clone();
            f[i].1 = f[i].1.poked();
            M::Enum(n, *k, f)
        }
        M::TStruct(f) => {
            let mut f = f.clone();
            f[i] = f[i].poked();
            M::TStruct(f)
        }
        M::Tuple(f) => {
            let mut f = f.clone();
            f[i] = f[i].poked();
            M::Tuple(f)
        }
        M::List(f) => {
            let mut f = f.clone();
            f[i] = f[i].poked();
            M::List(f)
        }
        M::Array(f) => {
            let mut f = f.clone();
            f[i] = f[i].poked();
            M::Array(f)
        }
        M::Map(f) => {
            let mut f = f.clone();
            f[i].1 = f[i].1.poked();
            M::Map(f)
        }
        _ => unreachable!(),
    }
}
fn pos_named(m: &M, n: &str) -> usize {
    names(m).iter().position(|x| str_eq(x.0, n)).unwrap_or(0)
}
fn pos(i: usize) -> usize {
    // an index that is in range, as one of the few
    for k in 0..20 {
        if k == i {
            return k;
        }
    }
    0
}
macro_rules! by_name {
    ($m:expr, $x:expr, $y:expr, $view:expr) => {{
        let m: M = $m;
        let n = near_name(&names(&m));
        by!($x, $y, &*n, named(&m, &n).cloned(), {
            cover(1);
            check(agrees($view, &changed_at(&m, pos_named(&m, &n))), 5);
        }, u32: u32, u8: u8, i8: i8, String: String, bool: bool);
    }};
}
macro_rules! by_index {
    ($m:expr, $x:expr, $y:expr, $view:expr) => {{
        let m: M = $m;
        let i: usize = Sym::sym();
        by!($x, $y, i, at(&m, i).cloned(), {
            cover(1);
            check(agrees($view, &changed_at(&m, pos(i))), 5);
        }, u32: u32, u8: u8, i8: i8, String: String, bool: bool);
    }};
}

fn struct_named() {
    let mut x = Named::sym();
    let m = x.model();
    let x2 = x.clone();
    by_name!(m.clone(), (&x2 as &dyn Struct), (&mut x as &mut dyn Struct), &x);
    cover(0);
}
fn struct_case() {
    let mut x = CaseNames::sym();
    let m = x.model();
    let x2 = x.clone();
    by_name!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn struct_value() {
    let m = Named::sym().model();
    let mut x = match StructValue::from_reflect(&m.value()) {
        Some(x) => x,
        None => return check(false, 6),
    };
    let x2 = x.clone();
    by_name!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn enum_name() {
    let mut x = WordsEnum::sym();
    let m = x.model();
    let x2 = x.clone();
    by_name!(m.clone(), (&x2 as &dyn Enum), (&mut x as &mut dyn Enum), &x);
    cover(0);
}
fn enum_value_name() {
    let m = Shape::sym().model();
    let mut x = match EnumValue::from_reflect(&m.value()) {
        Some(x) => x,
        None => return check(false, 6),
    };
    let x2 = x.clone();
    by_name!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn enum_index() {
    let mut x = Shape::sym();
    let m = x.model();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2 as &dyn Enum), (&mut x as &mut dyn Enum), &x);
    cover(0);
}
fn enum_value_index() {
    let m = Shape::sym().model();
    let mut x = match EnumValue::from_reflect(&m.value()) {
        Some(x) => x,
        None => return check(false, 6),
    };
    let x2 = x.clone();
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn tuple_struct() {
    let mut x = Triple::sym();
    let m = x.model();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2 as &dyn TupleStruct), (&mut x as &mut dyn TupleStruct), &x);
    cover(0);
}
fn wide_tuple_struct() {
    let mut x = WideTuple::sym();
    let m = x.model();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn tuple_struct_value() {
    let m = Triple::sym().model();
    let mut x = match TupleStructValue::from_reflect(&m.value()) {
        Some(x) => x,
        None => return check(false, 6),
    };
    let x2 = x.clone();
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn tuple() {
    let mut x: (u8, u32, bool, u8) = Sym::sym();
    let m = x.model();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn tuple_value() {
    let m = <(u8, u32, bool, u8)>::sym().model();
    let mut x = match TupleValue::from_reflect(&m.value()) {
        Some(x) => x,
        None => return check(false, 6),
    };
    let x2 = x.clone();
    by_index!(m.clone(), (&x2 as &dyn Tuple), (&mut x as &mut dyn Tuple), &x);
    cover(0);
}
fn array() {
    let mut x: [u8; 3] = Sym::sym();
    let m = x.model();
    let x2 = x;
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn list() {
    let mut x: Vec<u8> = Sym::sym();
    let m = x.model();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2 as &dyn List), (&mut x as &mut dyn List), &x);
    cover(0);
}
/// the helpers on generic values dispatch on the kind
fn value_index(m: M) {
    let mut x = m.value();
    let x2 = x.clone();
    by_index!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
fn value_name(m: M) {
    let mut x = m.value();
    let x2 = x.clone();
    by_name!(m.clone(), (&x2), (&mut x), &x);
    cover(0);
}
/// names as owned strings
fn value_string(m: M) {
    let mut x = m.value();
    let x2 = x.clone();
    let n = near_name(&names(&m));
    by!((&x2), (&mut x), n.clone(), named(&m, &n).cloned(), {
        cover(1);
        check(agrees(&x, &changed_at(&m, pos_named(&m, &n))), 5);
    }, u32: u32, u8: u8, i8: i8, String: String, bool: bool);
    cover(0);
}
fn key_at(m: &M, k: &M) -> Option<usize> {
    match m {
        M::Map(f) => f.iter().position(|x| x.0.eq(k)),
        _ => None,
    }
}
fn entry(m: &M, k: &M) -> Option<M> {
    match m {
        M::Map(f) => key_at(m, k).map(|i| f[i].1.clone()),
        _ => None,
    }
}
fn map<KT: Sym + Typed + Reflect + FromReflect + DescribeType + Ord + Clone>() {
    let mut x: BTreeMap<KT, u8> = Sym::sym();
    let m = x.model();
    let x2 = BTreeMap::from_iter(x.iter().map(|(k, v)| (k.clone(), *v)));
    let k = KT::sym();
    by!((&x2 as &dyn Map), (&mut x as &mut dyn Map), k.clone(), entry(&m, &k.model()), {
        cover(1);
        check(agrees(&x, &changed_at(&m, key_at(&m, &k.model()).unwrap_or(0))), 5);
    }, u8: u8, i8: i8);
    cover(0);
}
/// `of` is what the keys of the map are, `KT` what is asked for
fn value_map<O: Sym + Typed + Reflect + FromReflect + DescribeType + Ord, KT: Sym + Typed + Reflect + Clone>() {
    let o: BTreeMap<O, u8> = Sym::sym();
    let m = o.model();
    let mut x = o.to_value();
    let x2 = x.clone();
    let k = KT::sym();
    by!((&x2), (&mut x), k.clone(), entry(&m, &k.model()), {
        cover(1);
        check(agrees(&x, &changed_at(&m, key_at(&m, &k.model()).unwrap_or(0))), 5);
    }, u8: u8, i8: i8);
    cover(0);
}
/// text as a key of a map
fn map_str() {
    let mut x: BTreeMap<String, u8> = Sym::sym();
    let m = x.model();
    let k = String::sym();
    let mut v = x.to_value();
    let (x2, v2) = (x.clone(), v.clone());
    if flip() {
        by!((&x2), (&mut x), &*k, entry(&m, &k.model()), {
            cover(1);
            check(agrees(&x, &changed_at(&m, key_at(&m, &k.model()).unwrap_or(0))), 5);
        }, u8: u8, i8: i8);
    } else {
        by!((&v2), (&mut v), &*k, entry(&m, &k.model()), {
            cover(1);
            check(agrees(&v, &changed_at(&m, key_at(&m, &k.model()).unwrap_or(0))), 5);
        }, u8: u8, i8: i8);
    }
    cover(0);
}
/// far into longer lists
fn longer() {
    let n = [17, 33, 257][choose(3)];
    let mut x = numbers(n);
    let was = x.clone();
    let mut v = x.to_value();
    let i = [0, n / 2, n - 1, n, n / 2 + 256][choose(5)];
    let want = was.as_slice().get(i).copied();
    check(x.get_field::<u16>(i).copied() == want && v.get_field::<u16>(i).copied() == want, 90);
    check(x.get_field::<u8>(i).is_none() && v.get_field::<i16>(i).is_none(), 91);
    let y: u16 = Sym::sym();
    if let Some(z) = x.get_field_mut::<u16>(i) {
        *z = y;
    }
    if let Some(z) = v.get_field_mut::<u16>(i) {
        *z = y;
    }
    let mut e = was;
    if i < n {
        e[i] = y;
    }
    check(x.same(&e) && agrees(&v, &e.model()), 92);
    cover(0);
}

entries! {
    p18_longer: longer();
    p18_struct: struct_named();
    p18_struct_case: struct_case();
    p18_struct_value: struct_value();
    p18_enum_name: enum_name();
    p18_enum_value_name: enum_value_name();
    p18_enum_index: enum_index();
    p18_enum_value_index: enum_value_index();
    p18_tuple_struct: tuple_struct();
    p18_wide: wide_tuple_struct();
    p18_tuple_struct_value: tuple_struct_value();
    p18_tuple: tuple();
    p18_tuple_value: tuple_value();
    p18_array: array();
    p18_list: list();
    p18_map_u8: map::<u8>();
    p18_map_i64: map::<i64>();
    p18_map_usize: map::<usize>();
    p18_map_bool: map::<bool>();
    p18_map_string: map::<String>();
    p18_map_str: map_str();
    p18_v_struct: value_name(Named::sym().model());
    p18_v_shape: value_name(Shape::sym().model());
    p18_v_tuple_n: value_name(<(u8, bool)>::sym().model());
    p18_v_list_n: value_name(<Vec<u8>>::sym().model());
    p18_v_u8_n: value_name(u8::sym().model());
    p18_v_struct_s: value_string(Named::sym().model());
    p18_v_words_s: value_string(WordsEnum::sym().model());
    p18_v_list_s: value_string(<Vec<u8>>::sym().model());
    p18_v_triple: value_index(Triple::sym().model());
    p18_v_tuple: value_index(<(u8, u32, bool, u8)>::sym().model());
    p18_v_shape_i: value_index(Shape::sym().model());
    p18_v_list: value_index(<Vec<u8>>::sym().model());
    p18_v_array: value_index(<[u8; 3]>::sym().model());
    p18_v_named_i: value_index(Named::sym().model());
    p18_v_u8_i: value_index(u8::sym().model());
    p18_v_map_u8: value_map::<u8, u8>();
    p18_v_map_usize: value_map::<usize, usize>();
    p18_v_map_string: value_map::<String, String>();
    p18_v_map_mix: value_map::<u8, usize>();
    p18_v_map_mix2: value_map::<usize, u8>();
    p18_v_map_i128: value_map::<i128, i128>();
}
