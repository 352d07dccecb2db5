//! P06: reflected equality is equality of content
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// structs are compared by field name
fn same(a: &M, b: &M) -> bool {
    fn named(a: &[(&'static str, M)], b: &[(&'static str, M)]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut r = true;
        for (n, x) in a {
            match b.iter().find(|y| str_eq(y.0, n)) {
                Some(y) => r &= same(x, &y.1),
                None => return false,
            }
        }
        r
    }
    fn all(a: &[M], b: &[M]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut r = true;
        for i in 0..a.len() {
            r &= same(&a[i], &b[i]);
        }
        r
    }
    match (a, b) {
        (M::S(a), M::S(b)) => a.num_eq(b),
        (M::Struct(a), M::Struct(b)) => named(a, b),
        (M::TStruct(a), M::TStruct(b)) | (M::Tuple(a), M::Tuple(b)) => all(a, b),
        (M::List(a), M::List(b)) | (M::Array(a), M::Array(b)) => all(a, b),
        (M::Enum(n, VK::Struct, a), M::Enum(n2, VK::Struct, b)) => str_eq(n, n2) && named(a, b),
        (M::Enum(n, VK::Tuple, a), M::Enum(n2, VK::Tuple, b)) => {
            if !str_eq(n, n2) || a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for i in 0..a.len() {
                r &= same(&a[i].1, &b[i].1);
            }
            r
        }
        (M::Enum(n, VK::Unit, _), M::Enum(n2, VK::Unit, _)) => str_eq(n, n2),
        (M::Map(a), M::Map(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for i in 0..a.len() {
                r &= same(&a[i].0, &b[i].0) & same(&a[i].1, &b[i].1);
            }
            r
        }
        _ => false,
    }
}
fn is(r: Option<bool>, want: bool) -> bool {
    match r {
        Some(x) => x == want,
        None => false,
    }
}
/// two values of one type
fn pair<T: Sym + Typed + FromReflect>() {
    let (a, b) = (T::sym(), T::sym());
    let want = same(&a.model(), &b.model());
    check(is(reflect_eq(&a, &b), want), 1);
    check(is(reflect_eq(&b, &a), want), 2);
    check((a.as_reflect() == b.as_reflect()) == want, 3);
    let c = a.clone_reflect();
    check(is(reflect_eq(&*c, &b), want), 4);
    cover(0);
}
/// typed against generic, and generic against generic
fn mixed<T: Sym + Typed + FromReflect>() {
    let (a, b) = (T::sym(), T::sym());
    let want = same(&a.model(), &b.model());
    let v = b.to_value();
    check(is(reflect_eq(&a, &v), want), 1);
    check(is(reflect_eq(&v, &a), want), 2);
    let w = a.to_value();
    check(is(reflect_eq(&w, &v), want), 3);
    cover(0);
}
/// a value and a generic value that may deviate from its type
fn near_<T: Sym + Typed + FromReflect>() {
    let a = T::sym();
    let m = near(&T::ty(), &mut param(4, 1));
    let want = same(&a.model(), &m);
    let v = m.value();
    check(is(reflect_eq(&a, &v), want), 1);
    check(is(reflect_eq(&v, &a), want), 2);
    cover(0);
}
/// values of two different types
fn cross<A: Sym + Typed + FromReflect, B: Sym + Typed + FromReflect>() {
    let (a, b) = (A::sym(), B::sym());
    let want = same(&a.model(), &b.model());
    check(is(reflect_eq(&a, &b), want), 1);
    check(is(reflect_eq(&b, &a), want), 2);
    cover(0);
}
/// equality is transitive
fn trans<T: Sym + Typed + FromReflect>() {
    let (a, b, c) = (T::sym(), T::sym(), T::sym());
    let ab = is(reflect_eq(&a, &b), true);
    let bc = is(reflect_eq(&b, &c), true);
    if ab && bc {
        check(is(reflect_eq(&a, &c), true), 1);
    }
    cover(0);
}
/// a value that can't be looked into is neither equal nor unequal
fn opaque() {
    let b: u8 = Sym::sym();
    let a: u8 = Sym::sym();
    let x = HasHidden { a, h: Hidden(Sym::sym()), b };
    let y = HasHidden { a, h: Hidden(Sym::sym()), b };
    check(reflect_eq(&x, &y).is_none(), 1);
    check(reflect_eq(&x.h, &y.h).is_none(), 2);
    check(reflect_eq(&x.h, &b).is_none(), 3);
    check(reflect_eq(&b, &x.h).is_none(), 4);
    check(!(x.as_reflect() == y.as_reflect()), 5);
    cover(0);
}
/// larger values that differ in one place, if at all
fn spoiled<T: Sym + Typed + FromReflect>() {
    let a = T::sym();
    let mut m = a.model();
    spoil(&mut m);
    let want = same(&a.model(), &m);
    let v = m.value();
    check(is(reflect_eq(&a, &v), want), 1);
    check(is(reflect_eq(&v, &a), want), 2);
    check(is(reflect_eq(&a.to_value(), &v), want), 3);
    if let Some(b) = T::from_reflect(&v) {
        check(is(reflect_eq(&a, &b), want), 4);
    }
    cover(0);
}

/// a value, in the place it is, compared to itself, to a copy and to what it holds
fn inside(whole: &dyn Reflect, m: &M, part: &dyn Reflect, p: &M) {
    let want = same(m, p);
    check(is(reflect_eq(whole, part), want) && is(reflect_eq(part, whole), want), 1);
    itself(part, p);
}
fn itself(x: &dyn Reflect, m: &M) {
    let want = same(m, m);
    check(is(reflect_eq(x, x), want), 2);
    let copy = x.clone_reflect();
    check(is(reflect_eq(x, &*copy), want), 3);
    match (x.reflect_ref(), m) {
        (ReflectRef::Scalar(_), M::S(_)) => {}
        (ReflectRef::Struct(s), M::Struct(f)) => {
            for i in 0..f.len() {
                inside(x, m, s.field_at(i).unwrap(), &f[i].1);
            }
        }
        (ReflectRef::TupleStruct(s), M::TStruct(f)) => {
            for i in 0..f.len() {
                inside(x, m, s.field_at(i).unwrap(), &f[i]);
            }
        }
        (ReflectRef::Tuple(s), M::Tuple(f)) => {
            for i in 0..f.len() {
                inside(x, m, s.field_at(i).unwrap(), &f[i]);
            }
        }
        (ReflectRef::Enum(s), M::Enum(_, _, f)) => {
            for i in 0..f.len() {
                inside(x, m, s.field_at(i).unwrap(), &f[i].1);
            }
        }
        (ReflectRef::List(s), M::List(f) | M::Array(f)) => {
            for i in 0..f.len() {
                inside(x, m, s.get(i).unwrap(), &f[i]);
            }
        }
        (ReflectRef::Array(s), M::Array(f)) => {
            for i in 0..f.len() {
                inside(x, m, s.get(i).unwrap(), &f[i]);
            }
        }
        (ReflectRef::Map(s), M::Map(f)) => {
            let mut it = s.iter();
            for i in 0..f.len() {
                let (k, v) = it.next().unwrap();
                inside(x, m, k, &f[i].0);
                inside(x, m, v, &f[i].1);
            }
        }
        _ => check(false, 4),
    }
}
fn in_place<T: Sym + Typed + FromReflect>() {
    let x = T::sym();
    let m = x.model();
    if m.kind() == Kind::Array || flip() {
        itself(&x, &m);
    } else {
        itself(&m.value(), &m);
    }
    cover(0);
}

entries! {
    p06_i_f32: in_place::<f32>();
    p06_i_tuple1: in_place::<(f32,)>();
    p06_i_tuples: in_place::<((f32,), f64)>();
    p06_i_vec: in_place::<Vec<f32>>();
    p06_i_array: in_place::<[f32; 1]>();
    p06_i_arrays: in_place::<[[u8; 1]; 1]>();
    p06_i_option: in_place::<Option<f32>>();
    p06_i_boxed: in_place::<Box<Option<Box<f64>>>>();
    p06_i_gen: in_place::<Gen<f32>>();
    p06_i_map: in_place::<BTreeMap<u8, f32>>();
    p06_i_named: in_place::<Named>();
    p06_i_triple: in_place::<Triple>();
    p06_i_shape: in_place::<Shape>();
    p06_i_vec3d: in_place::<glam::Vec3>();
    p06_long_list_spoiled: spoiled::<LongList>();
    p06_long_map_spoiled: spoiled::<LongMap>();
    p06_long_text_spoiled: spoiled::<LongText>();
    p06_chain_spoiled: spoiled::<Chain>();
    p06_long_list: pair::<LongList>();
    p06_long_map: pair::<LongMap>();
    p06_long_text: pair::<LongText>();
    p06_chain: pair::<Chain>();
    p06_opaque: opaque();
    p06_scalars: pair::<Scalars>();
    p06_floats: pair::<(f32, f64)>();
    p06_named: pair::<Named>();
    p06_pair: pair::<Pair>();
    p06_triple: pair::<Triple>();
    p06_unit: pair::<Unit>();
    p06_shape: pair::<Shape>();
    p06_deep_a: pair::<DeepA>();
    p06_deep_b: pair::<DeepB>();
    p06_bare: pair::<Bare>();
    p06_bare_enum: pair::<BareEnum>();
    p06_tree: pair::<Tree>();
    p06_expr: pair::<Expr>();
    p06_words_enum: pair::<WordsEnum>();
    p06_case: pair::<CaseNames>();
    p06_case_enum: pair::<CaseEnum>();
    p06_wide: pair::<Wide>();
    p06_wide_tuple: pair::<WideTuple>();
    p06_skip_named: pair::<SkipNamed>();
    p06_skip_tuple: pair::<SkipTuple>();
    p06_skip_enum: pair::<SkipEnum>();
    p06_vec: pair::<Vec<Option<u16>>>();
    p06_array: pair::<[Small; 2]>();
    p06_map: pair::<BTreeMap<u8, u16>>();
    p06_map_str: pair::<BTreeMap<String, u8>>();
    p06_option: pair::<Option<Option<String>>>();
    p06_result: pair::<Result<u8, u8>>();
    p06_boxed: pair::<Box<Option<Box<u64>>>>();
    p06_range: pair::<std::ops::Range<u32>>();
    p06_nz: pair::<(std::num::NonZeroU8, std::num::NonZeroI64)>();
    p06_vec3d: pair::<glam::Vec3>();
    p06_tuple16: pair::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p06_m_named: mixed::<Named>();
    p06_m_triple: mixed::<Triple>();
    p06_m_shape: mixed::<Shape>();
    p06_m_gen: mixed::<Gen<u8>>();
    p06_gen_tuple: pair::<GenT<u16, 2>>();
    p06_gen_enum: pair::<GenE<u16, 1>>();
    p06_m_map: mixed::<BTreeMap<u8, u16>>();
    p06_m_vec: mixed::<Vec<Option<u16>>>();
    p06_m_expr: mixed::<Expr>();
    p06_m_tuple: mixed::<(u8, Pair, bool)>();
    p06_n_named: near_::<Named>();
    p06_n_triple: near_::<Triple>();
    p06_n_small: near_::<Small>();
    p06_n_words_enum: near_::<WordsEnum>();
    p06_n_case_enum: near_::<CaseEnum>();
    p06_n_vec: near_::<Vec<u8>>();
    p06_n_map: near_::<BTreeMap<u8, u8>>();
    p06_n_tuple: near_::<(u8, bool)>();
    p06_n_u32: near_::<u32>();
    p06_n_u8: near_::<u8>();
    p06_n_f32: near_::<f32>();
    p06_n_char: near_::<char>();
    p06_n_string: near_::<String>();
    p06_x_arrays: cross::<[u8; 2], [u8; 3]>();
    p06_x_array: cross::<[u8; 2], [u8; 2]>();
    p06_x_list: cross::<Vec<u8>, Vec<u16>>();
    p06_x_ints: cross::<u8, i8>();
    p06_x_tuple: cross::<(u32, u32), Pair>();
    p06_x_tuples: cross::<(u8, u8), (u8, u8, u8)>();
    p06_x_structs: cross::<Words, Wide>();
    p06_x_range: cross::<std::ops::Range<u8>, std::ops::RangeFrom<u8>>();
    p06_x_enums: cross::<Option<u8>, Result<u8, u8>>();
    p06_x_unit: cross::<Unit, Empty>();
    p06_x_nz: cross::<std::num::NonZeroU8, u8>();
    p06_t_floats: trans::<(f32, f64)>();
    p06_t_small: trans::<Small>();
    p06_t_vec: trans::<Vec<u8>>();
}
