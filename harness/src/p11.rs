//! P11: reading a value by name, by position and in order gives the same fields, elements and entries
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::enum_::VariantField;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// `next` after `k` elements of `n`
fn left<I: ExactSizeIterator>(it: &I, n: usize, k: usize) -> bool {
    it.len() == n - k && it.size_hint() == (n - k, Some(n - k))
}
/// every way of reading gives the content
fn walk(v: &dyn Reflect, m: &M) {
    match (v.reflect_ref(), m) {
        (ReflectRef::Scalar(s), M::S(m)) => check(scalar_ref(s).eq(m), 1),
        (ReflectRef::Struct(s), M::Struct(f)) => {
            check(s.fields_len() == f.len(), 2);
            let mut it = s.fields();
            for (i, (n, m)) in f.iter().enumerate() {
                check(left(&it, f.len(), i), 3);
                match it.next() {
                    Some((k, x)) => {
                        check(str_eq(k, n), 4);
                        check(agrees(x, m), 5);
                    }
                    None => check(false, 6),
                }
                check(s.name_at(i).map_or(false, |k| str_eq(k, n)), 7);
                check(s.field(n).map_or(false, |x| agrees(x, m)), 8);
                match s.field_at(i) {
                    Some(x) => walk(x, m),
                    None => check(false, 9),
                }
            }
            check(left(&it, f.len(), f.len()) && it.next().is_none() && it.next().is_none(), 10);
        }
        (ReflectRef::TupleStruct(s), M::TStruct(f)) => {
            check(s.fields_len() == f.len(), 11);
            let mut it = s.fields();
            for (i, m) in f.iter().enumerate() {
                check(left(&it, f.len(), i), 12);
                check(it.next().map_or(false, |x| agrees(x, m)), 13);
                match s.field_at(i) {
                    Some(x) => walk(x, m),
                    None => check(false, 14),
                }
            }
            check(left(&it, f.len(), f.len()) && it.next().is_none() && it.next().is_none(), 15);
        }
        (ReflectRef::Tuple(s), M::Tuple(f)) => {
            check(s.fields_len() == f.len(), 16);
            let mut it = s.fields();
            for (i, m) in f.iter().enumerate() {
                check(left(&it, f.len(), i), 17);
                check(it.next().map_or(false, |x| agrees(x, m)), 18);
                match s.field_at(i) {
                    Some(x) => walk(x, m),
                    None => check(false, 19),
                }
            }
            check(left(&it, f.len(), f.len()) && it.next().is_none() && it.next().is_none(), 20);
        }
        (ReflectRef::Enum(s), M::Enum(n, k, f)) => {
            check(str_eq(s.variant_name(), n) && VK::of(s.variant_kind()) == *k && s.fields_len() == f.len(), 21);
            let mut it = s.fields();
            for (i, (n, m)) in f.iter().enumerate() {
                match (it.next(), k) {
                    (Some(VariantField::Struct(k, x)), VK::Struct) => {
                        check(str_eq(k, n) && agrees(x, m), 22);
                        check(s.name_at(i).map_or(false, |k| str_eq(k, n)), 23);
                        check(s.field(n).map_or(false, |x| agrees(x, m)), 24);
                    }
                    (Some(VariantField::Tuple(x)), VK::Tuple) => check(agrees(x, m), 25),
                    _ => check(false, 26),
                }
                match s.field_at(i) {
                    Some(x) => walk(x, m),
                    None => check(false, 27),
                }
            }
            check(it.next().is_none() && it.next().is_none(), 28);
        }
        (ReflectRef::List(s), M::List(f) | M::Array(f)) => elems(s.len(), s.is_empty(), s.iter(), &|i| s.get(i), f),
        (ReflectRef::Array(s), M::Array(f)) => elems(s.len(), s.is_empty(), s.iter(), &|i| s.get(i), f),
        (ReflectRef::Map(s), M::Map(f)) => {
            check(s.len() == f.len() && s.is_empty() == f.is_empty(), 29);
            let mut it = s.iter();
            for (k, m) in f {
                match it.next() {
                    Some((q, x)) => {
                        check(agrees(q, k) && agrees(x, m), 30);
                        walk(x, m);
                    }
                    None => check(false, 31),
                }
                check(s.get(&k.value()).map_or(false, |x| agrees(x, m)), 32);
            }
            check(it.next().is_none(), 33);
        }
        _ => check(false, 34),
    }
}
fn elems<'a>(len: usize, empty: bool, mut it: array::Iter<'a>, get: &dyn Fn(usize) -> Option<&'a dyn Reflect>, f: &[M]) {
    check(len == f.len() && empty == f.is_empty(), 35);
    for (i, m) in f.iter().enumerate() {
        check(left(&it, f.len(), i), 36);
        check(it.next().map_or(false, |x| agrees(x, m)), 37);
        match get(i) {
            Some(x) => walk(x, m),
            None => check(false, 38),
        }
    }
    check(left(&it, f.len(), f.len()) && it.next().is_none() && it.next().is_none(), 39);
}
fn is<'a>(x: Option<&'a dyn Reflect>, m: Option<&M>) -> bool {
    match (x, m) {
        (Some(x), Some(m)) => agrees(x, m),
        (None, None) => true,
        _ => false,
    }
}
/// any position, any name near those of the fields, any key
fn probe(v: &dyn Reflect, m: &M) {
    let i: usize = Sym::sym();
    match (v.reflect_ref(), m) {
        (ReflectRef::Struct(s), M::Struct(f)) => {
            if flip() {
                check(is(s.field_at(i), nth(f, i).map(|x| &x.1)), 1);
                check(s.name_at(i).is_some() == (i < f.len()), 2);
            } else {
                let n = near_name(f);
                check(is(s.field(&n), f.iter().find(|x| str_eq(x.0, &n)).map(|x| &x.1)), 3);
            }
        }
        (ReflectRef::TupleStruct(s), M::TStruct(f)) => check(is(s.field_at(i), nth(f, i)), 4),
        (ReflectRef::Tuple(s), M::Tuple(f)) => check(is(s.field_at(i), nth(f, i)), 5),
        (ReflectRef::Enum(s), M::Enum(_, k, f)) => {
            if flip() {
                check(is(s.field_at(i), nth(f, i).map(|x| &x.1)), 6);
                if *k == VK::Struct {
                    check(s.name_at(i).is_some() == (i < f.len()), 7);
                }
            } else {
                let n = near_name(f);
                let want = if *k == VK::Struct { f.iter().find(|x| str_eq(x.0, &n)) } else { None };
                check(is(s.field(&n), want.map(|x| &x.1)), 8);
            }
        }
        (ReflectRef::List(s), M::List(f) | M::Array(f)) => check(is(s.get(i), nth(f, i)), 9),
        (ReflectRef::Array(s), M::Array(f)) => check(is(s.get(i), nth(f, i)), 10),
        (ReflectRef::Map(s), M::Map(f)) => {
            let k = match f.first() {
                Some((M::S(k), _)) => M::S(Sc::sym(k.tag)),
                Some((k, _)) => k.clone(),
                None => M::S(Sc::sym(Tag::u8)),
            };
            check(is(s.get(&k.value()), f.iter().find(|x| x.0.eq(&k)).map(|x| &x.1)), 11);
        }
        (ReflectRef::Scalar(_), M::S(_)) => {}
        _ => check(false, 12),
    }
}
fn read<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    walk(&x, &m);
    if let (Some(e), K::Enum(v)) = (x.as_enum(), &T::ty().k) {
        check(e.variants_len() == v.len(), 50);
    }
    if m.kind() != Kind::Array {
        walk(&m.value(), &m);
    }
    cover(0);
}
fn probed<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    if flip() || m.kind() == Kind::Array {
        probe(&x, &m);
    } else {
        probe(&m.value(), &m);
    }
    cover(0);
}

/// the iterators, but not step by step
fn skim(v: &dyn Reflect, m: &M) {
    match (v.reflect_ref(), m) {
        (ReflectRef::Struct(s), M::Struct(f)) => {
            skims!(s.fields(), f.len(), |(k, x), i: usize| str_eq(k, f[i].0) && agrees(x, &f[i].1), 60)
        }
        (ReflectRef::TupleStruct(s), M::TStruct(f)) => skims!(s.fields(), f.len(), |x, i: usize| agrees(x, &f[i]), 70),
        (ReflectRef::Tuple(s), M::Tuple(f)) => skims!(s.fields(), f.len(), |x, i: usize| agrees(x, &f[i]), 80),
        (ReflectRef::Enum(s), M::Enum(_, k, f)) => skims!(
            s.fields(),
            f.len(),
            |x, i: usize| match x {
                VariantField::Struct(n, x) => *k == VK::Struct && str_eq(n, f[i].0) && agrees(x, &f[i].1),
                VariantField::Tuple(x) => *k == VK::Tuple && agrees(x, &f[i].1),
            },
            90
        ),
        (ReflectRef::List(s), M::List(f) | M::Array(f)) => skims!(s.iter(), f.len(), |x, i: usize| agrees(x, &f[i]), 100),
        (ReflectRef::Array(s), M::Array(f)) => skims!(s.iter(), f.len(), |x, i: usize| agrees(x, &f[i]), 110),
        (ReflectRef::Map(s), M::Map(f)) => {
            skims!(s.iter(), f.len(), |(k, x), i: usize| agrees(k, &f[i].0) && agrees(x, &f[i].1), 120)
        }
        _ => check(false, 130),
    }
}
fn skimmed<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    if m.kind() == Kind::Array || flip() {
        skim(&x, &m);
    } else {
        skim(&m.value(), &m);
    }
    cover(0);
}

entries! {
    p11_k_named: skimmed::<Named>();
    p11_k_wide: skimmed::<Wide>();
    p11_k_triple: skimmed::<Triple>();
    p11_k_shape: skimmed::<Shape>();
    p11_k_skip_enum: skimmed::<SkipEnum>();
    p11_k_tuple3: skimmed::<(u8, u16, bool)>();
    p11_k_vec: skimmed::<Vec<u8>>();
    p11_k_array: skimmed::<[u8; 3]>();
    p11_k_map: skimmed::<BTreeMap<u8, u16>>();
    p11_k_option: skimmed::<Option<u16>>();
    p11_k_range: skimmed::<std::ops::Range<u32>>();
    p11_long_list: read::<LongList>();
    p11_long_map: read::<LongMap>();
    p11_long_text: read::<LongText>();
    p11_chain: read::<Chain>();
    p11_scalars: read::<Scalars>();
    p11_named: read::<Named>();
    p11_triple: read::<Triple>();
    p11_unit: read::<Unit>();
    p11_empty: read::<Empty>();
    p11_empty_tuple: read::<EmptyTuple>();
    p11_shape: read::<Shape>();
    p11_deep_a: read::<DeepA>();
    p11_deep_b: read::<DeepB>();
    p11_bare: read::<Bare>();
    p11_bare_tuple: read::<BareTuple>();
    p11_bare_enum: read::<BareEnum>();
    p11_listed: read::<Listed>();
    p11_tree: read::<Tree>();
    p11_expr: read::<Expr>();
    p11_skip_named: read::<SkipNamed>();
    p11_skip_tuple: read::<SkipTuple>();
    p11_skip_enum: read::<SkipEnum>();
    p11_words: read::<Words>();
    p11_case: read::<CaseNames>();
    p11_words_enum: read::<WordsEnum>();
    p11_case_enum: read::<CaseEnum>();
    p11_wide: read::<Wide>();
    p11_wide_tuple: read::<WideTuple>();
    p11_gen: read::<Gen<Pair>>();
    p11_gen_tuple: read::<GenT<u16, 2>>();
    p11_gen_enum: read::<GenE<u16, 1>>();
    p11_vec: read::<Vec<Option<u16>>>();
    p11_array: read::<[Small; 2]>();
    p11_array0: read::<[u8; 0]>();
    p11_map: read::<BTreeMap<u8, Small>>();
    p11_map_str: read::<BTreeMap<String, u8>>();
    p11_map_i: read::<BTreeMap<i16, u8>>();
    p11_option: read::<Option<Option<String>>>();
    p11_result: read::<Result<Pair, String>>();
    p11_boxed: read::<Box<Option<Box<u64>>>>();
    p11_range: read::<std::ops::Range<u32>>();
    p11_range_from: read::<std::ops::RangeFrom<u8>>();
    p11_range_to: read::<std::ops::RangeTo<u8>>();
    p11_range_to_incl: read::<std::ops::RangeToInclusive<u8>>();
    p11_range_full: read::<std::ops::RangeFull>();
    p11_tuple0: read::<()>();
    p11_tuple1: read::<(u8,)>();
    p11_tuple16: read::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p11_tuple15: read::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p11_tuple12: read::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p11_tuple7: read::<(u8, u8, u8, u8, u8, u8, u8)>();
    p11_tuple3: read::<(u8, Pair, (i8, bool))>();
    p11_nz: read::<(std::num::NonZeroU8, std::num::NonZeroI64)>();
    p11_vec3d: read::<glam::Vec3>();
    p11_mat3: read::<glam::Mat3>();
    p11_color: read::<macaw::ColorRgba8>();
    p11_q_named: probed::<Named>();
    p11_q_pair: probed::<Pair>();
    p11_q_triple: probed::<Triple>();
    p11_q_unit: probed::<Unit>();
    p11_q_empty: probed::<Empty>();
    p11_q_shape: probed::<Shape>();
    p11_q_skip_named: probed::<SkipNamed>();
    p11_q_skip_tuple: probed::<SkipTuple>();
    p11_q_skip_enum: probed::<SkipEnum>();
    p11_q_words: probed::<Words>();
    p11_q_case: probed::<CaseNames>();
    p11_q_words_enum: probed::<WordsEnum>();
    p11_q_case_enum: probed::<CaseEnum>();
    p11_q_wide: probed::<Wide>();
    p11_q_wide_tuple: probed::<WideTuple>();
    p11_q_vec: probed::<Vec<u8>>();
    p11_q_array: probed::<[u8; 3]>();
    p11_q_map: probed::<BTreeMap<u8, u16>>();
    p11_q_map_i: probed::<BTreeMap<i64, u16>>();
    p11_q_map_bool: probed::<BTreeMap<bool, u16>>();
    p11_q_map_char: probed::<BTreeMap<char, u16>>();
    p11_q_map_str: probed::<BTreeMap<String, u8>>();
    p11_q_option: probed::<Option<u16>>();
    p11_q_result: probed::<Result<u8, u16>>();
    p11_q_range: probed::<std::ops::Range<u32>>();
    p11_q_tuple0: probed::<()>();
    p11_q_tuple3: probed::<(u8, u16, bool)>();
    p11_q_tuple16: probed::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p11_q_vec3d: probed::<glam::Vec3>();
}
