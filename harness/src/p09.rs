//! P09: what a path leads to can be changed through it, and nothing else changes
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// reaching something mutably succeeds exactly when reading does, leads to the same content, and
/// changing it there changes it everywhere it is seen, and nothing else
fn go(x: &mut dyn Reflect, m: &M) {
    along(x, m, path(m, param(5, 3)))
}
fn along(x: &mut dyn Reflect, m: &M, s: Vec<Step>) {
    let p = key_path_of(&s);
    let found = x.at(&p).is_some();
    match (x.at_mut(&p), nav(m, &s)) {
        (Some(y), Some(n)) => {
            check(found, 1);
            check(agrees(y, n), 2);
            poke(y);
            check(agrees(x, &poked_at(m, &s)), 3);
            match x.at(&p) {
                Some(y) => check(agrees(y, &n.poked()), 4),
                None => check(false, 5),
            }
        }
        (None, None) => {
            check(!found, 6);
            check(agrees(x, m), 7);
        }
        _ => check(false, 8),
    }
    cover(0);
}
fn typed<T: Sym + Typed + Reflect>() {
    let mut x = T::sym();
    let m = x.model();
    go(&mut x, &m);
}
fn generic<T: Sym + Typed + Reflect>() {
    let m = T::sym().model();
    go(&mut m.value(), &m);
}
/// as its own type
fn downcast() {
    let mut x = Deep::sym();
    let t = x.t;
    let arr = x.arr;
    let new: u8 = Sym::sym();
    let i = Sym::sym();
    match x.get_at_mut::<u8>(&key_path!(.arr).get(Value::usize(i))) {
        Some(b) => {
            check(i < 2, 1);
            *b = new;
            check(x.arr[i] == new && x.arr[1 - i] == arr[1 - i] && x.t.0 == t.0 && x.t.1 == t.1, 2);
        }
        None => check(i >= 2, 3),
    }
    check(x.get_at_mut::<u16>(&key_path!(.arr[0])).is_none(), 4);
    let o: u16 = Sym::sym();
    let was = x.o;
    match x.get_at_mut::<u16>(&key_path!(.o::Some.0)) {
        Some(y) => {
            *y = o;
            check(was.is_some() && x.o == Some(o), 5);
        }
        None => check(was.is_none(), 6),
    }
    cover(0);
}
/// somewhere far into larger values
fn far<T: Sym + Typed + Reflect>() {
    let mut x = T::sym();
    let m = x.model();
    let s = walk(&m);
    if flip() {
        along(&mut x, &m, s)
    } else {
        along(&mut m.value(), &m, s)
    }
}

entries! {
    p09_long_list: far::<LongList>();
    p09_long_map: far::<LongMap>();
    p09_long_text: far::<LongText>();
    p09_chain: far::<Chain>();
    p09_downcast: downcast();
    p09_scalars: typed::<Scalars>();
    p09_named: typed::<Named>();
    p09_triple: typed::<Triple>();
    p09_unit: typed::<Unit>();
    p09_shape: typed::<Shape>();
    p09_deep_a: typed::<DeepA>();
    p09_deep_b: typed::<DeepB>();
    p09_bare: typed::<Bare>();
    p09_bare_tuple: typed::<BareTuple>();
    p09_bare_enum: typed::<BareEnum>();
    p09_listed: typed::<Listed>();
    p09_tree: typed::<Tree>();
    p09_expr: typed::<Expr>();
    p09_skip_named: typed::<SkipNamed>();
    p09_skip_tuple: typed::<SkipTuple>();
    p09_skip_enum: typed::<SkipEnum>();
    p09_words_enum: typed::<WordsEnum>();
    p09_case: typed::<CaseNames>();
    p09_case_enum: typed::<CaseEnum>();
    p09_wide: typed::<Wide>();
    p09_wide_tuple: typed::<WideTuple>();
    p09_gen: typed::<Gen<Pair>>();
    p09_gen_tuple: typed::<GenT<u16, 2>>();
    p09_gen_enum: typed::<GenE<u16, 1>>();
    p09_map: typed::<BTreeMap<u8, Small>>();
    p09_map_str: typed::<BTreeMap<String, (u8, i8)>>();
    p09_map_neg: typed::<BTreeMap<i8, [u8; 2]>>();
    p09_map_map: typed::<BTreeMap<u8, BTreeMap<u8, u8>>>();
    p09_vec: typed::<Vec<Option<Pair>>>();
    p09_vec2: typed::<Vec<Vec<u8>>>();
    p09_array: typed::<[Small; 2]>();
    p09_arrays: typed::<[[u8; 2]; 3]>();
    p09_option: typed::<Option<Option<String>>>();
    p09_result: typed::<Result<Pair, String>>();
    p09_boxed: typed::<Box<Option<Box<u64>>>>();
    p09_range: typed::<std::ops::Range<u32>>();
    p09_range_from: typed::<std::ops::RangeFrom<i64>>();
    p09_range_to: typed::<std::ops::RangeTo<f32>>();
    p09_tuple0: typed::<()>();
    p09_tuple3: typed::<(u8, Pair, (i8, bool))>();
    p09_tuple16: typed::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p09_mat3: typed::<glam::Mat3>();
    p09_color: typed::<macaw::ColorRgba8>();
    p09_u8: typed::<u8>();
    p09_g_triple: generic::<Triple>();
    p09_g_shape: generic::<Shape>();
    p09_g_deep_a: generic::<DeepA>();
    p09_g_deep_b: generic::<DeepB>();
    p09_g_expr: generic::<Expr>();
    p09_g_tree: generic::<Tree>();
    p09_g_map: generic::<BTreeMap<u8, Small>>();
    p09_g_map_str: generic::<BTreeMap<String, (u8, i8)>>();
    p09_g_tuple: generic::<(u8, Pair, (i8, bool))>();
}
