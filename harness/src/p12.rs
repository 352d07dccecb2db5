//! P12: everything that can be read can be changed in place, by name, by position and in order
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::enum_::VariantFieldMut;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// change every leaf, reaching each through the iterators, which go through the same content in order
fn sweep(v: &mut dyn Reflect, m: &M) {
    match (v.reflect_mut(), m) {
        (ReflectMut::Scalar(s), M::S(_)) => poke_scalar(s),
        (ReflectMut::Struct(s), M::Struct(f)) => {
            let mut it = s.fields_mut();
            for (n, m) in f {
                match it.next() {
                    Some((k, x)) => {
                        check(str_eq(k, n) && agrees(x, m), 1);
                        sweep(x, m);
                    }
                    None => check(false, 2),
                }
            }
            check(it.next().is_none(), 3);
        }
        (ReflectMut::TupleStruct(s), M::TStruct(f)) => all(&mut *s.fields_mut(), f),
        (ReflectMut::Tuple(s), M::Tuple(f)) => all(&mut *s.fields_mut(), f),
        (ReflectMut::Enum(s), M::Enum(_, k, f)) => {
            let mut it = s.fields_mut();
            for (n, m) in f {
                match (it.next(), k) {
                    (Some(VariantFieldMut::Struct(k, x)), VK::Struct) => {
                        check(str_eq(k, n) && agrees(x, m), 4);
                        sweep(x, m);
                    }
                    (Some(VariantFieldMut::Tuple(x)), VK::Tuple) => {
                        check(agrees(x, m), 5);
                        sweep(x, m);
                    }
                    _ => check(false, 6),
                }
            }
            check(it.next().is_none(), 7);
        }
        (ReflectMut::List(s), M::List(f) | M::Array(f)) => all(&mut *s.iter_mut(), f),
        (ReflectMut::Array(s), M::Array(f)) => all(&mut *s.iter_mut(), f),
        (ReflectMut::Map(s), M::Map(f)) => {
            let mut it = s.iter_mut();
            for (k, m) in f {
                match it.next() {
                    Some((q, x)) => {
                        check(agrees(q, k) && agrees(x, m), 8);
                        sweep(x, m);
                    }
                    None => check(false, 9),
                }
            }
            check(it.next().is_none(), 10);
        }
        _ => check(false, 11),
    }
}
fn all<'a>(it: &mut dyn Iterator<Item = &'a mut dyn Reflect>, f: &[M]) {
    for m in f {
        match it.next() {
            Some(x) => {
                check(agrees(x, m), 12);
                sweep(x, m);
            }
            None => check(false, 13),
        }
    }
    check(it.next().is_none(), 14);
}
/// reach one place, change it, and say which place that should have been
fn reach(v: &mut dyn Reflect, m: &M) -> Option<usize> {
    fn hit(x: Option<&mut dyn Reflect>, m: Option<&M>) -> bool {
        match (x, m) {
            (Some(x), Some(m)) => {
                check(agrees(x, m), 20);
                poke(x);
                true
            }
            (None, None) => false,
            _ => {
                check(false, 21);
                false
            }
        }
    }
    fn yes(hit: bool, i: usize) -> Option<usize> {
        if hit {
            Some(i)
        } else {
            None
        }
    }
    fn at(n: usize, i: usize) -> usize {
        (0..n).find(|k| *k == i).unwrap_or(n)
    }
    let i: usize = Sym::sym();
    match (v.reflect_mut(), m) {
        (ReflectMut::Struct(s), M::Struct(f)) => {
            if flip() {
                let i = at(f.len(), i);
                yes(hit(s.field_at_mut(i), f.get(i).map(|x| &x.1)), i)
            } else {
                let n = near_name(f);
                let i = f.iter().position(|x| str_eq(x.0, &n)).unwrap_or(f.len());
                yes(hit(s.field_mut(&n), f.get(i).map(|x| &x.1)), i)
            }
        }
        (ReflectMut::TupleStruct(s), M::TStruct(f)) => {
            let k = at(f.len(), i);
            yes(hit(s.field_at_mut(i), f.get(k)), k)
        }
        (ReflectMut::Tuple(s), M::Tuple(f)) => {
            let k = at(f.len(), i);
            yes(hit(s.field_at_mut(i), f.get(k)), k)
        }
        (ReflectMut::Enum(s), M::Enum(_, k, f)) => {
            if flip() {
                let k = at(f.len(), i);
                yes(hit(s.field_at_mut(i), f.get(k).map(|x| &x.1)), k)
            } else {
                let n = near_name(f);
                let i = if *k == VK::Struct { f.iter().position(|x| str_eq(x.0, &n)).unwrap_or(f.len()) } else { f.len() };
                yes(hit(s.field_mut(&n), f.get(i).map(|x| &x.1)), i)
            }
        }
        (ReflectMut::List(s), M::List(f) | M::Array(f)) => {
            let k = at(f.len(), i);
            yes(hit(s.get_mut(i), f.get(k)), k)
        }
        (ReflectMut::Array(s), M::Array(f)) => {
            let k = at(f.len(), i);
            yes(hit(s.get_mut(i), f.get(k)), k)
        }
        (ReflectMut::Map(s), M::Map(f)) => {
            let k = match f.first() {
                Some((M::S(k), _)) => M::S(Sc::sym(k.tag)),
                Some((k, _)) => k.clone(),
                None => M::S(Sc::sym(Tag::u8)),
            };
            let i = f.iter().position(|x| x.0.eq(&k)).unwrap_or(f.len());
            yes(hit(s.get_mut(&k.value()), f.get(i).map(|x| &x.1)), i)
        }
        _ => {
            check(false, 22);
            None
        }
    }
}
/// the content after the field, element or entry `i` was poked
fn poked_one(m: &M, i: usize) -> M {
    let all = |f: &Vec<M>| f.iter().enumerate().map(|(k, x)| if k == i { x.poked() } else { x.clone() }).collect::<Vec<_>>();
    let named = |f: &Vec<(&'static str, M)>| {
        f.iter().enumerate().map(|(k, x)| (x.0, if k == i { x.1.poked() } else { x.1.clone() })).collect::<Vec<_>>()
    };
    match m {
        M::S(_) => m.clone(),
        M::Struct(f) => M::Struct(named(f)),
        M::TStruct(f) => M::TStruct(all(f)),
        M::Tuple(f) => M::Tuple(all(f)),
        M::Enum(n, k, f) => M::Enum(n, *k, named(f)),
        M::List(f) => M::List(all(f)),
        M::Array(f) => M::Array(all(f)),
        M::Map(f) => M::Map(f.iter().enumerate().map(|(k, x)| (x.0.clone(), if k == i { x.1.poked() } else { x.1.clone() })).collect()),
    }
}
fn swept<T: Sym + Typed + Reflect>() {
    let mut x = T::sym();
    let m = x.model();
    let p = m.poked();
    sweep(&mut x, &m);
    check(agrees(&x, &p), 30);
    check(x.model().eq(&p), 31);
    if m.kind() != Kind::Array {
        let mut v = m.value();
        sweep(&mut v, &m);
        check(agrees(&v, &p), 32);
    }
    cover(0);
}
fn reached<T: Sym + Typed + Reflect>() {
    let mut x = T::sym();
    let m = x.model();
    if flip() || m.kind() == Kind::Array {
        let want = match reach(&mut x, &m) {
            Some(i) => poked_one(&m, i),
            None => m,
        };
        check(agrees(&x, &want), 33);
    } else {
        let mut v = m.value();
        let want = match reach(&mut v, &m) {
            Some(i) => poked_one(&m, i),
            None => m,
        };
        check(agrees(&v, &want), 34);
    }
    cover(0);
}

/// the iterators, but not step by step
fn skim(v: &mut dyn Reflect, m: &M) {
    match (v.reflect_mut(), m) {
        (ReflectMut::Struct(s), M::Struct(f)) => {
            skims!(s.fields_mut(), f.len(), |(k, x): (&str, &mut dyn Reflect), i: usize| str_eq(k, f[i].0) && agrees(x, &f[i].1), 60)
        }
        (ReflectMut::TupleStruct(s), M::TStruct(f)) => {
            skims!(s.fields_mut(), f.len(), |x: &mut dyn Reflect, i: usize| agrees(x, &f[i]), 70)
        }
        (ReflectMut::Tuple(s), M::Tuple(f)) => {
            skims!(s.fields_mut(), f.len(), |x: &mut dyn Reflect, i: usize| agrees(x, &f[i]), 80)
        }
        (ReflectMut::Enum(s), M::Enum(_, k, f)) => skims!(
            s.fields_mut(),
            f.len(),
            |x: VariantFieldMut<'_>, i: usize| match x {
                VariantFieldMut::Struct(n, x) => *k == VK::Struct && str_eq(n, f[i].0) && agrees(x, &f[i].1),
                VariantFieldMut::Tuple(x) => *k == VK::Tuple && agrees(x, &f[i].1),
            },
            90
        ),
        (ReflectMut::List(s), M::List(f) | M::Array(f)) => {
            skims!(s.iter_mut(), f.len(), |x: &mut dyn Reflect, i: usize| agrees(x, &f[i]), 100)
        }
        (ReflectMut::Array(s), M::Array(f)) => {
            skims!(s.iter_mut(), f.len(), |x: &mut dyn Reflect, i: usize| agrees(x, &f[i]), 110)
        }
        (ReflectMut::Map(s), M::Map(f)) => skims!(
            s.iter_mut(),
            f.len(),
            |(k, x): (&dyn Reflect, &mut dyn Reflect), i: usize| agrees(k, &f[i].0) && agrees(x, &f[i].1),
            120
        ),
        _ => check(false, 130),
    }
}
fn skimmed<T: Sym + Typed + Reflect>() {
    let mut x = T::sym();
    let m = x.model();
    if m.kind() == Kind::Array || flip() {
        skim(&mut x, &m);
    } else {
        skim(&mut m.value(), &m);
    }
    cover(0);
}

entries! {
    p12_k_named: skimmed::<Named>();
    p12_k_triple: skimmed::<Triple>();
    p12_k_shape: skimmed::<Shape>();
    p12_k_skip_enum: skimmed::<SkipEnum>();
    p12_k_tuple3: skimmed::<(u8, u16, bool)>();
    p12_k_vec: skimmed::<Vec<u8>>();
    p12_k_array: skimmed::<[u8; 3]>();
    p12_k_map: skimmed::<BTreeMap<u8, u16>>();
    p12_k_option: skimmed::<Option<u16>>();
    p12_long_list: swept::<LongList>();
    p12_long_map: swept::<LongMap>();
    p12_long_text: swept::<LongText>();
    p12_chain: swept::<Chain>();
    p12_scalars: swept::<Scalars>();
    p12_named: swept::<Named>();
    p12_triple: swept::<Triple>();
    p12_unit: swept::<Unit>();
    p12_empty: swept::<Empty>();
    p12_empty_tuple: swept::<EmptyTuple>();
    p12_shape: swept::<Shape>();
    p12_deep_a: swept::<DeepA>();
    p12_deep_b: swept::<DeepB>();
    p12_bare: swept::<Bare>();
    p12_bare_tuple: swept::<BareTuple>();
    p12_bare_enum: swept::<BareEnum>();
    p12_listed: swept::<Listed>();
    p12_tree: swept::<Tree>();
    p12_expr: swept::<Expr>();
    p12_skip_named: swept::<SkipNamed>();
    p12_skip_tuple: swept::<SkipTuple>();
    p12_skip_enum: swept::<SkipEnum>();
    p12_words: swept::<Words>();
    p12_case: swept::<CaseNames>();
    p12_words_enum: swept::<WordsEnum>();
    p12_case_enum: swept::<CaseEnum>();
    p12_wide: swept::<Wide>();
    p12_wide_tuple: swept::<WideTuple>();
    p12_gen: swept::<Gen<Pair>>();
    p12_gen_tuple: swept::<GenT<u16, 2>>();
    p12_gen_enum: swept::<GenE<u16, 1>>();
    p12_vec: swept::<Vec<Option<u16>>>();
    p12_array: swept::<[Small; 2]>();
    p12_array0: swept::<[u8; 0]>();
    p12_map: swept::<BTreeMap<u8, Small>>();
    p12_map_str: swept::<BTreeMap<String, u8>>();
    p12_option: swept::<Option<Option<String>>>();
    p12_result: swept::<Result<Pair, String>>();
    p12_boxed: swept::<Box<Option<Box<u64>>>>();
    p12_range: swept::<std::ops::Range<u32>>();
    p12_range_from: swept::<std::ops::RangeFrom<u8>>();
    p12_range_to: swept::<std::ops::RangeTo<u8>>();
    p12_range_to_incl: swept::<std::ops::RangeToInclusive<u8>>();
    p12_tuple0: swept::<()>();
    p12_tuple1: swept::<(u8,)>();
    p12_tuple16: swept::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p12_tuple3: swept::<(u8, Pair, (i8, bool))>();
    p12_vec3d: swept::<glam::Vec3>();
    p12_mat3: swept::<glam::Mat3>();
    p12_color: swept::<macaw::ColorRgba8>();
    p12_q_named: reached::<Named>();
    p12_q_pair: reached::<Pair>();
    p12_q_triple: reached::<Triple>();
    p12_q_unit: reached::<Unit>();
    p12_q_empty: reached::<Empty>();
    p12_q_shape: reached::<Shape>();
    p12_q_skip_named: reached::<SkipNamed>();
    p12_q_skip_tuple: reached::<SkipTuple>();
    p12_q_skip_enum: reached::<SkipEnum>();
    p12_q_words: reached::<Words>();
    p12_q_case: reached::<CaseNames>();
    p12_q_words_enum: reached::<WordsEnum>();
    p12_q_case_enum: reached::<CaseEnum>();
    p12_q_wide: reached::<Wide>();
    p12_q_wide_tuple: reached::<WideTuple>();
    p12_q_vec: reached::<Vec<u8>>();
    p12_q_array: reached::<[u8; 3]>();
    p12_q_map: reached::<BTreeMap<u8, u16>>();
    p12_q_map_i: reached::<BTreeMap<i64, u16>>();
    p12_q_map_str: reached::<BTreeMap<String, u8>>();
    p12_q_option: reached::<Option<u16>>();
    p12_q_result: reached::<Result<u8, u16>>();
    p12_q_range: reached::<std::ops::Range<u32>>();
    p12_q_tuple0: reached::<()>();
    p12_q_tuple3: reached::<(u8, u16, bool)>();
    p12_q_tuple16: reached::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p12_q_vec3d: reached::<glam::Vec3>();
}
