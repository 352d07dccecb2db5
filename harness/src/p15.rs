//! P15: the default value of a type, if it has one, is a value of the type with every part at its default
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::num::*;

/// what the default is meant to be
fn def(t: &Ty) -> Option<M> {
    fn named(f: &[(&'static str, TyFn)]) -> Option<Vec<(&'static str, M)>> {
        let mut out = Vec::new();
        for (n, t) in f {
            out.push((*n, def(&t())?));
        }
        Some(out)
    }
    fn all(f: &[TyFn]) -> Option<Vec<M>> {
        let mut out = Vec::new();
        for t in f {
            out.push(def(&t())?);
        }
        Some(out)
    }
    Some(match &t.k {
        K::Scalar(t) => M::S(Sc { tag: *t, bits: 0, s: String::new() }),
        K::NonZero(_) => return None,
        K::Struct(f) => M::Struct(named(f)?),
        K::TStruct(f) => M::TStruct(all(f)?),
        K::Tuple(f) => M::Tuple(all(f)?),
        K::Enum(v) => variant(v.first()?)?,
        K::List(_) => M::List(vec![]),
        K::Array(_, 0) => M::Array(vec![]),
        K::Array(t, n) => M::Array(vec![def(&t())?; *n]),
        K::Map(..) => M::Map(vec![]),
    })
}
fn variant(v: &Var) -> Option<M> {
    let mut out = Vec::new();
    for (n, t) in &v.fields {
        out.push((*n, def(&t())?));
    }
    Some(M::Enum(v.name, v.kind, out))
}
/// a generic value shows arrays as lists
fn is(v: &Option<Value>, m: &Option<M>) -> bool {
    match (v, m) {
        (Some(v), Some(m)) => agrees(v, m),
        (None, None) => true,
        _ => false,
    }
}
fn defaults<T: Typed + FromReflect + DescribeType>() -> (Option<Value>, Option<M>) {
    let d = <T as DescribeType>::type_descriptor();
    let want = def(&T::ty());
    let got = d.default_value();
    check(is(&got, &want), 1);
    check(d.has_default_value() == want.is_some(), 2);
    let t = d.get_type();
    check(is(&t.default_value(), &want) && t.has_default_value() == want.is_some(), 3);
    if let Some(a) = t.type_at(&KeyPath::default()) {
        check(is(&a.default_value(), &want) && a.has_default_value() == want.is_some(), 4);
    } else {
        check(false, 5);
    }
    if let K::Enum(vars) = &T::ty().k {
        for v in vars {
            let want = variant(v);
            match t.type_at(&key_path::variant(v.name)) {
                Some(a) => {
                    check(is(&a.default_value(), &want) && a.has_default_value() == want.is_some(), 6);
                    match a.as_variant() {
                        Some(w) => check(is(&w.default_value(), &want) && w.has_default_value() == want.is_some(), 7),
                        None => check(false, 8),
                    }
                }
                None => check(false, 9),
            }
            if let Some(w) = &want {
                check(T::from_reflect(&w.value()).map_or(false, |x| x.model().eq(w)), 10);
            }
        }
    }
    if let (Some(v), Some(m)) = (&got, &want) {
        check(T::from_reflect(v).map_or(false, |x| x.model().eq(m)), 11);
    }
    (got, want)
}
/// any value patched with the default
fn patched<T: Sym + Typed + FromReflect + DescribeType>() {
    let mut x = T::sym();
    let (got, want) = defaults::<T>();
    if let (Some(v), Some(d)) = (got, want) {
        let mut m = x.model();
        x.patch(&v);
        patch(&T::ty(), &mut m, &d);
        check(x.model().eq(&m), 12);
    }
    cover(0);
}
fn none() {
    let d = <Infallible as DescribeType>::type_descriptor();
    check(d.default_value().is_none() && !d.has_default_value(), 13);
    let d = <Result<Infallible, u8> as DescribeType>::type_descriptor();
    check(d.default_value().is_none() && !d.has_default_value(), 14);
    let d = <Vec<Infallible> as DescribeType>::type_descriptor();
    check(d.default_value() == Some(Value::List(vec![])) && d.has_default_value(), 15);
    let d = <[Infallible; 0] as DescribeType>::type_descriptor();
    check(d.default_value() == Some(Value::List(vec![])) && d.has_default_value(), 16);
    cover(0);
}
/// its first variant contains itself
#[derive(Reflect, Clone, Debug)]
enum Chain {
    More(Box<Chain>),
    End(u8),
}
fn endless() {
    let _ = (Chain::More(Box::new(Chain::End(1))),);
    let d = <Chain as DescribeType>::type_descriptor();
    check(!d.has_default_value(), 17);
    check(d.default_value().is_none(), 18);
    cover(0);
}

entries! {
    p15_none: none();
    p15_endless: endless();
    p15_scalars: patched::<Scalars>();
    p15_named: patched::<Named>();
    p15_pair: patched::<Pair>();
    p15_triple: patched::<Triple>();
    p15_unit: patched::<Unit>();
    p15_empty: patched::<Empty>();
    p15_empty_tuple: patched::<EmptyTuple>();
    p15_shape: patched::<Shape>();
    p15_small: patched::<Small>();
    p15_deep_a: patched::<DeepA>();
    p15_deep_b: patched::<DeepB>();
    p15_bare: patched::<Bare>();
    p15_bare_tuple: patched::<BareTuple>();
    p15_bare_enum: patched::<BareEnum>();
    p15_tree: patched::<Tree>();
    p15_expr: patched::<Expr>();
    p15_skip_named: patched::<SkipNamed>();
    p15_skip_tuple: patched::<SkipTuple>();
    p15_skip_enum: patched::<SkipEnum>();
    p15_words: patched::<Words>();
    p15_words_enum: patched::<WordsEnum>();
    p15_wide: patched::<Wide>();
    p15_wide_tuple: patched::<WideTuple>();
    p15_gen: patched::<Gen<Pair>>();
    p15_gen_tuple: patched::<GenT<u16, 2>>();
    p15_gen_enum: patched::<GenE<u16, 1>>();
    p15_vec: patched::<Vec<Option<u16>>>();
    p15_array: patched::<[Small; 2]>();
    p15_array3: patched::<[Pair; 3]>();
    p15_array0: patched::<[NonZeroU8; 0]>();
    p15_array_nz: patched::<[NonZeroU8; 1]>();
    p15_map: patched::<BTreeMap<u8, u16>>();
    p15_option: patched::<Option<Option<String>>>();
    p15_result: patched::<Result<Pair, String>>();
    p15_result_nz: patched::<Result<NonZeroU8, u8>>();
    p15_option_nz: patched::<Option<NonZeroU8>>();
    p15_list_nz: patched::<Vec<NonZeroU8>>();
    p15_boxed: patched::<Box<Option<Box<u64>>>>();
    p15_range: patched::<std::ops::Range<u32>>();
    p15_tuple0: patched::<()>();
    p15_tuple3: patched::<(u8, Pair, (i8, bool))>();
    p15_tuple_nz: patched::<(u8, NonZeroI128)>();
    p15_tuple16: patched::<(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char, f32, f64, usize, String)>();
    p15_mat3: patched::<glam::Mat3>();
}
