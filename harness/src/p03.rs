//! P03: patching with a complete value of the same type
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// patch a typed value with a typed value and with a generic value, and a generic value with both
fn full<T: Sym + Typed + FromReflect>() {
    both::<T>(true)
}
/// types whose generic form is a plain number
fn full_nz<T: Sym + Typed + FromReflect>() {
    both::<T>(false)
}
fn both<T: Sym + Typed + FromReflect>(generic_by_typed: bool) {
    let t = T::ty();
    let mut a = T::sym();
    let mut b = T::sym();
    let mut e = a.model();
    patch(&t, &mut e, &b.model());
    let av = a.to_value();
    a.patch(&b);
    check(agrees(&a, &e), 1);
    match T::from_reflect(&av) {
        Some(mut a) => {
            a.patch(&b.to_value());
            check(agrees(&a, &e), 2);
        }
        None => check(false, 3),
    }
    let mut v = av.clone();
    v.patch(&b.to_value());
    check(agrees(&v, &e), 4);
    if generic_by_typed {
        let mut v = av;
        v.patch(&b);
        check(agrees(&v, &e), 5);
    }
    // patching again changes nothing
    a.patch(&b);
    check(agrees(&a, &e), 6);
    // nor does patching with itself
    let own = b.model();
    let bv = b.to_value();
    b.patch(&bv);
    check(agrees(&b, &own), 7);
    cover(0);
}
/// without lists and maps, the result is the patch itself
fn replaced<T: Sym + Typed + FromReflect>() {
    let mut a = T::sym();
    let mut b = T::sym();
    a.reset();
    b.reset();
    a.patch(&b);
    check(a.same(&b), 1);
    let mut c = T::sym();
    c.reset();
    c.patch(&b.to_value());
    check(c.same(&b), 2);
    cover(0);
}

entries! {
    p03_long_text: replaced::<LongText>();
    p03_chain: replaced::<Chain>();
    p03_long_list_full: full::<LongList>();
    p03_long_map_full: full::<LongMap>();
    p03_chain_full: full::<Chain>();
    p03_scalars: replaced::<Scalars>();
    p03_scalars_m: full::<Scalars>();
    p03_named: replaced::<Named>();
    p03_named_m: full::<Named>();
    p03_pair: replaced::<Pair>();
    p03_triple: full::<Triple>();
    p03_unit: full::<Unit>();
    p03_empty: full::<Empty>();
    p03_shape: replaced::<Shape>();
    p03_shape_m: full::<Shape>();
    p03_deep_a: full::<DeepA>();
    p03_deep_b: full::<DeepB>();
    p03_gen: full::<Gen<Small>>();
    p03_gen_tuple: full::<GenT<u16, 2>>();
    p03_gen_enum: full::<GenE<u16, 1>>();
    p03_bare: replaced::<Bare>();
    p03_bare_tuple: full::<BareTuple>();
    p03_bare_enum: full::<BareEnum>();
    p03_outer_a: full::<(Vec<Pair>, Option<Named>)>();
    p03_outer_b: full::<Vec<Small>>();
    p03_tree: full::<Tree>();
    p03_expr: full::<Expr>();
    p03_skip_named: replaced::<SkipNamed>();
    p03_skip_tuple: replaced::<SkipTuple>();
    p03_skip_enum: replaced::<SkipEnum>();
    p03_words: replaced::<Words>();
    p03_case: replaced::<CaseNames>();
    p03_words_enum: replaced::<WordsEnum>();
    p03_case_enum: replaced::<CaseEnum>();
    p03_wide: replaced::<Wide>();
    p03_wide_tuple: replaced::<WideTuple>();
    p03_vec: full::<Vec<Option<u16>>>();
    p03_vec2: full::<Vec<Vec<u8>>>();
    p03_array: replaced::<[Small; 2]>();
    p03_arrays: replaced::<[[u8; 2]; 2]>();
    p03_map: full::<BTreeMap<u8, u16>>();
    p03_map_small: full::<BTreeMap<u8, Small>>();
    p03_map_str: full::<BTreeMap<String, u8>>();
    p03_option: full::<Option<Option<u16>>>();
    p03_option_r: replaced::<Option<Option<String>>>();
    p03_result: replaced::<Result<Pair, String>>();
    p03_boxed: replaced::<Box<Option<Box<u64>>>>();
    p03_range: replaced::<std::ops::Range<u32>>();
    p03_range_from: replaced::<std::ops::RangeFrom<i64>>();
    p03_range_to: replaced::<std::ops::RangeTo<f32>>();
    p03_range_to_incl: replaced::<std::ops::RangeToInclusive<char>>();
    p03_nz_u: full_nz::<(std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroU128, std::num::NonZeroUsize)>();
    p03_nz_i: full_nz::<(std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroI128)>();
    p03_vec2d: replaced::<glam::Vec2>();
    p03_vec3d: replaced::<glam::Vec3>();
    p03_mat3: replaced::<glam::Mat3>();
    p03_color: replaced::<macaw::ColorRgba8>();
    p03_tuple0: full::<()>();
    p03_tuple1: replaced::<(u8,)>();
    p03_tuple2: full::<(u8, i8)>();
    p03_tuple3: full::<(u8, Vec<u8>, [u8; 2])>();
    p03_tuple8: replaced::<(u8, u8, u8, u8, u8, u8, u8, u8)>();
    p03_tuple13: replaced::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p03_tuple16: replaced::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
}
