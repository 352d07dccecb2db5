//! P04: patching only touches what the patch has a compatible value for
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn part<T: Sym + Typed + FromReflect>() {
    let t = T::ty();
    let mut a = T::sym();
    let mut budget = param(4, 1);
    let p = near(&t, &mut budget);
    let mut e = a.model();
    patch(&t, &mut e, &p);
    let v = p.value();
    a.patch(&v);
    check(a.model().eq(&e), 1);
    // the patch is idempotent
    a.patch(&v);
    check(a.model().eq(&e), 2);
    cover(0);
}
/// fields the reflection does not see stay as they are
fn hidden_named() {
    let mut a = SkipNamed::sym();
    let (h, i) = (a.hidden, a.inner);
    a.patch(&near(&SkipNamed::ty(), &mut param(4, 1)).value());
    check(a.hidden == h && a.inner == i, 1);
    cover(0);
}
fn hidden_tuple() {
    let mut a = SkipTuple::sym();
    let (h, i) = (a.0, a.2);
    a.patch(&near(&SkipTuple::ty(), &mut param(4, 1)).value());
    check(a.0 == h && a.2 == i, 1);
    cover(0);
}
/// as long as the patch stays within the variant and is not a complete new value
fn hidden_enum() {
    let mut a = SkipEnum::sym();
    let p = near(&SkipEnum::ty(), &mut param(4, 1));
    let was = match &a {
        SkipEnum::T(h, _, i, _) => Some(("T", *h, *i)),
        SkipEnum::S { hidden, inner, .. } => Some(("S", *hidden, *inner)),
        _ => None,
    };
    a.patch(&p.value());
    if let (Some((n, h, i)), M::Enum(pn, ..)) = (was, &p) {
        if str_eq(n, pn) && fit(&SkipEnum::ty(), &p).is_none() {
            match &a {
                SkipEnum::T(h2, _, i2, _) => check(n == "T" && h == *h2 && i == *i2, 1),
                SkipEnum::S { hidden, inner, .. } => check(n == "S" && h == *hidden && i == *inner, 2),
                _ => check(false, 3),
            }
        }
    }
    cover(0);
}
/// one leaf of a struct named by a patch with just this field
fn one_field() {
    let mut a = Named::sym();
    let (z, x, m, k) = (a.z, a.a, a.m.clone(), a.k);
    let new = Sym::sym();
    match choose(2) {
        0 => {
            a.patch(&struct_::StructValue::new().with_field("z", new));
            check(a.z == new && a.a == x && a.m.same(&m) && a.k == k, 1);
        }
        _ => {
            a.patch(&struct_::StructValue::new().with_field("a", new));
            check(a.z == z && a.a == new && a.m.same(&m) && a.k == k, 2);
        }
    }
    cover(0);
}
/// a patch with the same name for the variant but another kind changes nothing
fn variant_kind() {
    let mut a = Small::Level(Sym::sym());
    let was = a.model();
    let v = match choose(2) {
        0 => M::Enum("Level", VK::Unit, vec![]),
        _ => M::Enum("Level", VK::Struct, vec![("lo", M::S(Sc::sym(Tag::i16)))]),
    };
    a.patch(&v.value());
    check(a.model().eq(&was), 1);
    cover(0);
}
/// larger values, and patches with something else in one place
fn spoiled<T: Sym + Typed + FromReflect>() {
    let mut a = T::sym();
    let mut p = T::sym().model();
    spoil(&mut p);
    let mut e = a.model();
    patch(&T::ty(), &mut e, &p);
    a.patch(&p.value());
    check(a.model().eq(&e), 1);
    cover(0);
}

entries! {
    p04_long_list: spoiled::<LongList>();
    p04_long_map: spoiled::<LongMap>();
    p04_chain: spoiled::<Chain>();
    p04_hidden_named: hidden_named();
    p04_hidden_tuple: hidden_tuple();
    p04_hidden_enum: hidden_enum();
    p04_one_field: one_field();
    p04_variant_kind: variant_kind();
    p04_scalars: part::<Scalars>();
    p04_named: part::<Named>();
    p04_gen_tuple: part::<GenT<u16, 2>>();
    p04_gen_enum: part::<GenE<u16, 1>>();
    p04_pair: part::<Pair>();
    p04_triple: part::<Triple>();
    p04_unit: part::<Unit>();
    p04_shape: part::<Shape>();
    p04_small: part::<Small>();
    p04_deep_a: part::<DeepA>();
    p04_deep_b: part::<DeepB>();
    p04_bare: part::<Bare>();
    p04_bare_tuple: part::<BareTuple>();
    p04_bare_enum: part::<BareEnum>();
    p04_skip_named: part::<SkipNamed>();
    p04_skip_tuple: part::<SkipTuple>();
    p04_skip_enum: part::<SkipEnum>();
    p04_words: part::<Words>();
    p04_case: part::<CaseNames>();
    p04_words_enum: part::<WordsEnum>();
    p04_case_enum: part::<CaseEnum>();
    p04_wide: part::<Wide>();
    p04_wide_tuple: part::<WideTuple>();
    p04_vec: part::<Vec<Option<u16>>>();
    p04_vec2: part::<Vec<Vec<u8>>>();
    p04_array: part::<[Small; 2]>();
    p04_arrays: part::<[[u8; 2]; 2]>();
    p04_map: part::<BTreeMap<u8, Small>>();
    p04_map_str: part::<BTreeMap<String, u8>>();
    p04_option: part::<Option<Option<String>>>();
    p04_result: part::<Result<Pair, String>>();
    p04_boxed: part::<Box<Option<Box<u64>>>>();
    p04_range: part::<std::ops::Range<u32>>();
    p04_nz: part::<(std::num::NonZeroU8, Option<std::num::NonZeroI16>)>();
    p04_tuple1: part::<(u8,)>();
    p04_tuple3: part::<(u8, Pair, i8)>();
    p04_tuple16: part::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p04_color: part::<macaw::ColorRgba8>();
    p04_vec3d: part::<glam::Vec3>();
}
