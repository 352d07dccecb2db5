//! P02: converting a generic value to a type gives the typed value exactly when its shape fits
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// content that is of type `T` except in up to `param(4)` places
fn conv<T: Typed + FromReflect>() {
    let t = T::ty();
    let mut budget = param(4, 1);
    let m = near(&t, &mut budget);
    let v = m.value();
    let r = T::from_reflect(&v);
    match fit(&t, &m) {
        Some(e) => match r {
            Some(x) => check(x.model().eq(&e), 1),
            None => check(false, 2),
        },
        None => check(r.is_none(), 3),
    }
    cover(0);
}
/// any scalar of any kind converts exactly to its own type
fn scalar<T: Typed + FromReflect>() {
    let m = M::S(Sc::sym(TAGS[choose(16)]));
    let r = T::from_reflect(&m.value());
    match fit(&T::ty(), &m) {
        Some(e) => match r {
            Some(x) => check(x.model().eq(&e), 1),
            None => check(false, 2),
        },
        None => check(r.is_none(), 3),
    }
    cover(0);
}
/// a number converts to a duration exactly when it is one
fn duration() {
    let s = f32::from_bits(any_u32());
    let ok = s >= 0.0 && s < 18446744073709551616.0;
    // within a second, the engine is spared most of the conversion's arithmetic
    let r = std::time::Duration::from_reflect(&Value::f32(s));
    check(r.is_some() == ok, 1);
    cover(0);
}
/// conversion between different typed values goes by shape as well
fn cross<A: Typed + Sym + Reflect, B: Typed + FromReflect>() {
    let a = A::sym();
    let r = B::from_reflect(&a);
    match fit(&B::ty(), &a.model()) {
        Some(e) => match r {
            Some(x) => check(x.model().eq(&e), 1),
            None => check(false, 2),
        },
        None => check(r.is_none(), 3),
    }
    cover(0);
}
/// larger values, with or without something else in one place
fn spoiled<T: Typed + Sym + FromReflect>() {
    let mut m = T::sym().model();
    if flip() {
        spoil(&mut m);
    }
    let r = T::from_reflect(&m.value());
    match fit(&T::ty(), &m) {
        Some(e) => match r {
            Some(x) => check(x.model().eq(&e), 1),
            None => check(false, 2),
        },
        None => check(r.is_none(), 3),
    }
    cover(0);
}

entries! {
    p02_long_list: spoiled::<LongList>();
    p02_long_map: spoiled::<LongMap>();
    p02_long_text: spoiled::<LongText>();
    p02_chain: spoiled::<Chain>();
    p02_listed: conv::<Listed>();
    p02_usize: scalar::<usize>();
    p02_u8: scalar::<u8>();
    p02_u16: scalar::<u16>();
    p02_u32: scalar::<u32>();
    p02_u64: scalar::<u64>();
    p02_u128: scalar::<u128>();
    p02_i8: scalar::<i8>();
    p02_i16: scalar::<i16>();
    p02_i32: scalar::<i32>();
    p02_i64: scalar::<i64>();
    p02_i128: scalar::<i128>();
    p02_bool: scalar::<bool>();
    p02_char: scalar::<char>();
    p02_f32: scalar::<f32>();
    p02_f64: scalar::<f64>();
    p02_string: scalar::<String>();
    p02_nz_u8: scalar::<std::num::NonZeroU8>();
    p02_nz_u16: scalar::<std::num::NonZeroU16>();
    p02_nz_u32: scalar::<std::num::NonZeroU32>();
    p02_nz_u64: scalar::<std::num::NonZeroU64>();
    p02_nz_u128: scalar::<std::num::NonZeroU128>();
    p02_nz_usize: scalar::<std::num::NonZeroUsize>();
    p02_nz_i8: scalar::<std::num::NonZeroI8>();
    p02_nz_i16: scalar::<std::num::NonZeroI16>();
    p02_nz_i32: scalar::<std::num::NonZeroI32>();
    p02_nz_i64: scalar::<std::num::NonZeroI64>();
    p02_nz_i128: scalar::<std::num::NonZeroI128>();
    p02_duration: duration();
    p02_scalars: conv::<Scalars>();
    p02_named: conv::<Named>();
    p02_pair: conv::<Pair>();
    p02_triple: conv::<Triple>();
    p02_unit: conv::<Unit>();
    p02_empty: conv::<Empty>();
    p02_shape: conv::<Shape>();
    p02_deep: conv::<Deep>();
    p02_gen: conv::<Gen<Small>>();
    p02_gen_tuple: conv::<GenT<u16, 2>>();
    p02_gen_enum: conv::<GenE<u16, 1>>();
    p02_bare: conv::<Bare>();
    p02_bare_tuple: conv::<BareTuple>();
    p02_bare_enum: conv::<BareEnum>();
    p02_skip_named: conv::<SkipNamed>();
    p02_skip_tuple: conv::<SkipTuple>();
    p02_skip_enum: conv::<SkipEnum>();
    p02_words: conv::<Words>();
    p02_case: conv::<CaseNames>();
    p02_words_enum: conv::<WordsEnum>();
    p02_case_enum: conv::<CaseEnum>();
    p02_wide: conv::<Wide>();
    p02_wide_tuple: conv::<WideTuple>();
    p02_vec: conv::<Vec<Option<Pair>>>();
    p02_array: conv::<[Small; 2]>();
    p02_arrays: conv::<[[u8; 2]; 2]>();
    p02_map: conv::<BTreeMap<u8, Small>>();
    p02_map_str: conv::<BTreeMap<String, Vec<u8>>>();
    p02_option: conv::<Option<Option<String>>>();
    p02_result: conv::<Result<Pair, String>>();
    p02_boxed: conv::<Box<Option<Box<u64>>>>();
    p02_range: conv::<std::ops::Range<u32>>();
    p02_range_from: conv::<std::ops::RangeFrom<i64>>();
    p02_range_to: conv::<std::ops::RangeTo<f32>>();
    p02_nested_nz: conv::<(std::num::NonZeroU8, Option<std::num::NonZeroI16>)>();
    p02_tuple0: conv::<()>();
    p02_tuple1: conv::<(u8,)>();
    p02_tuple2: conv::<(u8, i8)>();
    p02_tuple5: conv::<(u8, u16, u32, u64, i8)>();
    p02_tuple16: conv::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p02_color: conv::<macaw::ColorRgba8>();
    p02_vec3d: conv::<glam::Vec3>();
    p02_cross_structs: cross::<Scalars, Named>();
    p02_cross_named: cross::<Named, Named>();
    p02_cross_pair: cross::<Pair, (u32, u32)>();
    p02_cross_deep: cross::<Deep, Deep>();
    p02_cross_shape: cross::<Shape, BareEnum>();
    p02_cross_small: cross::<Small, Small>();
    p02_cross_wide: cross::<Wide, Words>();
    p02_cross_tuple: cross::<(u8, bool, i8), (u8, bool)>();
    p02_cross_tuple2: cross::<(u8, bool), (u8, bool, i8)>();
    p02_cross_arr: cross::<[u8; 3], [u8; 2]>();
    p02_cross_nz: cross::<std::num::NonZeroU8, std::num::NonZeroU8>();
}
