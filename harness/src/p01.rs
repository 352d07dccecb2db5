//! P01: typed value -> generic value -> typed value is the identity
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn rt<T: Sym + FromReflect>() {
    let mut x = T::sym();
    let v = x.to_value();
    let w = Value::from_reflect(&x);
    // fields the reflection does not see come back as their defaults
    x.reset();
    match T::from_reflect(&v) {
        Some(r) => {
            check(r.same(&x), 2);
            // and once more through the value produced from the copy
            match T::from_reflect(r.to_value().as_reflect()) {
                Some(r) => check(r.same(&x), 3),
                None => check(false, 4),
            }
        }
        None => check(false, 1),
    }
    // the generic conversion to a generic value
    match w {
        Some(w) => match T::from_reflect(&w) {
            Some(r) => check(r.same(&x), 5),
            None => check(false, 6),
        },
        None => check(false, 7),
    }
    cover(0);
}

entries! {
    p01_long_list: rt::<LongList>();
    p01_long_map: rt::<LongMap>();
    p01_long_text: rt::<LongText>();
    p01_chain: rt::<Chain>();
    p01_listed: rt::<Listed>();
    p01_scalars: rt::<Scalars>();
    p01_named: rt::<Named>();
    p01_pair: rt::<Pair>();
    p01_triple: rt::<Triple>();
    p01_unit: rt::<Unit>();
    p01_empty: rt::<Empty>();
    p01_shape: rt::<Shape>();
    p01_deep: rt::<Deep>();
    p01_gen: rt::<Gen<Small>>();
    p01_gen_tuple: rt::<GenT<u16, 2>>();
    p01_gen_enum: rt::<GenE<u16, 1>>();
    p01_bare: rt::<Bare>();
    p01_bare_tuple: rt::<BareTuple>();
    p01_bare_enum: rt::<BareEnum>();
    p01_tree: rt::<Tree>();
    p01_skip_named: rt::<SkipNamed>();
    p01_skip_tuple: rt::<SkipTuple>();
    p01_skip_enum: rt::<SkipEnum>();
    p01_expr: rt::<Expr>();
    p01_words: rt::<Words>();
    p01_case: rt::<CaseNames>();
    p01_words_enum: rt::<WordsEnum>();
    p01_case_enum: rt::<CaseEnum>();
    p01_wide: rt::<Wide>();
    p01_wide_tuple: rt::<WideTuple>();
    p01_outer: rt::<Outer>();
    p01_empty_tuple: rt::<EmptyTuple>();
    p01_vec: rt::<Vec<Option<Pair>>>();
    p01_vec2: rt::<Vec<Vec<u8>>>();
    p01_array: rt::<[Small; 2]>();
    p01_array0: rt::<[u8; 0]>();
    p01_arrays: rt::<[[u8; 2]; 2]>();
    p01_map: rt::<BTreeMap<u8, Small>>();
    p01_map_str: rt::<BTreeMap<String, Vec<u8>>>();
    p01_map_key: rt::<BTreeMap<(u8, Option<bool>), [i8; 2]>>();
    p01_option: rt::<Option<Option<String>>>();
    p01_result: rt::<Result<Pair, String>>();
    p01_boxed: rt::<Box<Option<Box<u64>>>>();
    p01_range: rt::<std::ops::Range<u32>>();
    p01_range_from: rt::<std::ops::RangeFrom<i64>>();
    p01_range_to: rt::<std::ops::RangeTo<f32>>();
    p01_range_to_incl: rt::<std::ops::RangeToInclusive<char>>();
    p01_range_full: rt::<std::ops::RangeFull>();
    p01_nonzero_u: rt::<(std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroU128, std::num::NonZeroUsize)>();
    p01_nonzero_i: rt::<(std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroI128)>();
    p01_vec2d: rt::<glam::Vec2>();
    p01_vec3d: rt::<glam::Vec3>();
    p01_mat3: rt::<glam::Mat3>();
    p01_color: rt::<macaw::ColorRgba8>();
    p01_tuple0: rt::<()>();
    p01_tuple1: rt::<(u8,)>();
    p01_tuple2: rt::<(u8, i8)>();
    p01_tuple3: rt::<(u8, u8, u8)>();
    p01_tuple4: rt::<(u8, u8, u8, u8)>();
    p01_tuple5: rt::<(u8, u8, u8, u8, u8)>();
    p01_tuple6: rt::<(u8, u8, u8, u8, u8, u8)>();
    p01_tuple7: rt::<(u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple8: rt::<(u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple9: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple10: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple11: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple12: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple13: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple14: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple15: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p01_tuple16: rt::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
}
