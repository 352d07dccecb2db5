//! P08: a path leads to the content its steps name, or nowhere
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn led(r: Option<&dyn Reflect>, want: Option<&M>) -> bool {
    match (r, want) {
        (Some(r), Some(m)) => agrees(r, m),
        (None, None) => true,
        _ => false,
    }
}
fn typed<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    let s = path(&m, param(5, 3));
    let p = key_path_of(&s);
    let want = nav(&m, &s);
    check(led(x.at(&p), want), 1);
    check(led(x.as_reflect().at(&p), want), 2);
    cover(0);
}
fn generic<T: Sym + Typed + Reflect>() {
    let m = T::sym().model();
    let s = path(&m, param(5, 3));
    let p = key_path_of(&s);
    let v = m.value();
    check(led(v.at(&p), nav(&m, &s)), 1);
    cover(0);
}
/// what is found can be taken as its own type only
fn downcast() {
    let x = Deep::sym();
    let i = Sym::sym();
    match x.get_at::<u8>(&key_path!(.arr).get(Value::usize(i))) {
        Some(b) => check(i < 2 && *b == x.arr[i], 1),
        None => check(i >= 2, 2),
    }
    check(x.get_at::<i8>(&key_path!(.arr[0])).is_none(), 3);
    check(x.get_at::<u8>(&key_path!(.t.0)).copied() == Some(x.t.0), 4);
    check(x.get_at::<bool>(&key_path!(.t.1)).copied() == Some(x.t.1), 5);
    check(x.get_at::<u32>(&key_path!(.bx.1)).copied() == Some(x.bx.1), 6);
    check(x.get_at::<Pair>(&key_path!(.bx)).map(|p| p.0) == Some(x.bx.0), 7);
    check(x.get_at::<u16>(&key_path!(.o::Some.0)).copied() == x.o, 8);
    match &x.e {
        Small::Level(l) => check(x.get_at::<u8>(&key_path!(.e::Level.0)) == Some(l), 9),
        Small::Range { hi, .. } => check(x.get_at::<i16>(&key_path!(.e::Range.hi)) == Some(hi), 10),
        Small::Off => check(x.get_at::<Small>(&key_path!(.e::Off)).is_some() && x.at(&key_path!(.e::Level)).is_none(), 11),
    }
    cover(0);
}
/// no number other than the index itself is taken for the index
fn index() {
    let x: [u8; 2] = [1, 2];
    let k = Sc::sym(TAGS[choose(16)]);
    let want = match k.index() {
        Some(0) => Some(1),
        Some(1) => Some(2),
        _ => None,
    };
    let p = key_path::get(k.value());
    check(x.get_at::<u8>(&p).copied() == want, 1);
    check(x.to_vec().get_at::<u8>(&p).copied() == want, 2);
    check(x.to_value().get_at::<u8>(&p).copied() == want, 3);
    cover(0);
}
/// somewhere far into larger values
fn far<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    let s = walk(&m);
    let p = key_path_of(&s);
    let want = nav(&m, &s);
    check(led(x.at(&p), want), 1);
    check(led(m.value().at(&p), want), 2);
    cover(0);
}

entries! {
    p08_long_list: far::<LongList>();
    p08_long_map: far::<LongMap>();
    p08_long_text: far::<LongText>();
    p08_chain: far::<Chain>();
    p08_downcast: downcast();
    p08_index: index();
    p08_scalars: typed::<Scalars>();
    p08_named: typed::<Named>();
    p08_triple: typed::<Triple>();
    p08_unit: typed::<Unit>();
    p08_shape: typed::<Shape>();
    p08_deep_a: typed::<DeepA>();
    p08_deep_b: typed::<DeepB>();
    p08_bare: typed::<Bare>();
    p08_bare_tuple: typed::<BareTuple>();
    p08_bare_enum: typed::<BareEnum>();
    p08_listed: typed::<Listed>();
    p08_tree: typed::<Tree>();
    p08_expr: typed::<Expr>();
    p08_skip_named: typed::<SkipNamed>();
    p08_skip_tuple: typed::<SkipTuple>();
    p08_skip_enum: typed::<SkipEnum>();
    p08_words_enum: typed::<WordsEnum>();
    p08_case: typed::<CaseNames>();
    p08_case_enum: typed::<CaseEnum>();
    p08_wide: typed::<Wide>();
    p08_wide_tuple: typed::<WideTuple>();
    p08_gen: typed::<Gen<Pair>>();
    p08_gen_tuple: typed::<GenT<u16, 2>>();
    p08_gen_enum: typed::<GenE<u16, 1>>();
    p08_map: typed::<BTreeMap<u8, Small>>();
    p08_map_str: typed::<BTreeMap<String, (u8, i8)>>();
    p08_map_neg: typed::<BTreeMap<i8, [u8; 2]>>();
    p08_map_nz: typed::<BTreeMap<std::num::NonZeroU8, u8>>();
    p08_map_map: typed::<BTreeMap<u8, BTreeMap<u8, u8>>>();
    p08_vec: typed::<Vec<Option<Pair>>>();
    p08_vec2: typed::<Vec<Vec<u8>>>();
    p08_array: typed::<[Small; 2]>();
    p08_arrays: typed::<[[u8; 2]; 3]>();
    p08_option: typed::<Option<Option<String>>>();
    p08_result: typed::<Result<Pair, String>>();
    p08_boxed: typed::<Box<Option<Box<u64>>>>();
    p08_range: typed::<std::ops::Range<u32>>();
    p08_range_from: typed::<std::ops::RangeFrom<i64>>();
    p08_range_to: typed::<std::ops::RangeTo<f32>>();
    p08_tuple0: typed::<()>();
    p08_tuple3: typed::<(u8, Pair, (i8, bool))>();
    p08_tuple16: typed::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p08_mat3: typed::<glam::Mat3>();
    p08_color: typed::<macaw::ColorRgba8>();
    p08_u8: typed::<u8>();
    p08_g_triple: generic::<Triple>();
    p08_g_shape: generic::<Shape>();
    p08_g_deep_a: generic::<DeepA>();
    p08_g_deep_b: generic::<DeepB>();
    p08_g_expr: generic::<Expr>();
    p08_g_tree: generic::<Tree>();
    p08_g_map: generic::<BTreeMap<u8, Small>>();
    p08_g_map_str: generic::<BTreeMap<String, (u8, i8)>>();
    p08_g_tuple: generic::<(u8, Pair, (i8, bool))>();
}
