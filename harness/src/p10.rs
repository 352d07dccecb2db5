//! P10: paths through a type and paths through its values agree
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

enum At {
    Ty(Ty),
    Var(&'static str, String, VK),
    /// the type of elements, at an index beyond the end of the array
    Beyond,
    No,
}
/// what a path through a type is meant to lead to
fn nav_ty(t: Ty, steps: &[Step]) -> At {
    let Some(s) = steps.first() else { return At::Ty(t) };
    let rest = &steps[1..];
    match (s, &t.k) {
        (Step::Named(n), K::Struct(f)) => match f.iter().find(|x| str_eq(x.0, n)) {
            Some(x) => nav_ty(x.1(), rest),
            None => At::No,
        },
        (Step::Num(i), K::TStruct(f) | K::Tuple(f)) => match pick(f.len(), *i) {
            Some(i) => nav_ty(f[i](), rest),
            None => At::No,
        },
        (Step::Get(M::S(k)), K::List(f)) => match k.index() {
            Some(_) => nav_ty(f(), rest),
            None => At::No,
        },
        (Step::Get(M::S(k)), K::Array(f, n)) => match k.index() {
            Some(i) if i < *n => nav_ty(f(), rest),
            Some(_) => At::Beyond,
            None => At::No,
        },
        // any key may be in the map
        (Step::Get(_), K::Map(_, f)) => nav_ty(f(), rest),
        (Step::Variant(n), K::Enum(vars)) => match vars.iter().find(|v| str_eq(v.name, n)) {
            Some(v) => {
                let mut rest = rest;
                // naming the variant again is fine
                while let Some(Step::Variant(n)) = rest.first() {
                    if !str_eq(n, v.name) {
                        return At::No;
                    }
                    rest = &rest[1..];
                }
                match (rest.first(), v.kind) {
                    (None, k) => At::Var(t.name, v.name.to_string(), k),
                    (Some(Step::Named(n)), VK::Struct) => match v.fields.iter().find(|x| str_eq(x.0, n)) {
                        Some(x) => nav_ty(x.1(), &rest[1..]),
                        None => At::No,
                    },
                    (Some(Step::Num(i)), VK::Tuple) => match pick(v.fields.len(), *i) {
                        Some(i) => nav_ty(v.fields[i].1(), &rest[1..]),
                        None => At::No,
                    },
                    _ => At::No,
                }
            }
            None => At::No,
        },
        _ => At::No,
    }
}
fn pick(n: usize, i: usize) -> Option<usize> {
    (0..n).find(|k| *k == i)
}
fn is_type(t: TypeAtPath<'_>, want: &Ty) -> bool {
    str_eq(t.type_name(), want.name)
        && match want.k {
            K::Scalar(_) => t.as_scalar().is_some(),
            K::NonZero(_) => t.as_opaque().is_some(),
            K::Struct(_) => t.as_struct().is_some(),
            K::TStruct(_) => t.as_tuple_struct().is_some(),
            K::Tuple(_) => t.as_tuple().is_some(),
            K::Enum(_) => t.as_enum().is_some() && t.as_variant().is_none(),
            K::List(_) => t.as_list().is_some(),
            K::Array(..) => t.as_array().is_some(),
            K::Map(..) => t.as_map().is_some(),
        }
}
/// a path through the type leads to the type of what the path through a value leads to
fn of_value<T: Sym + Typed + Reflect + DescribeType>() {
    let x = T::sym();
    let m = x.model();
    let s = explicit(&m, &path(&m, param(5, 3)));
    agree(x, s)
}
/// several variants one after the other
fn crossed<T: Sym + Typed + Reflect + DescribeType>() {
    let x = T::sym();
    let K::Enum(vars) = T::ty().k else { return check(false, 0) };
    let mut s = Vec::new();
    let mut last = 0;
    for _ in 0..1 + choose(2) {
        last = choose(vars.len());
        s.push(Step::Variant(vars[last].name.to_string()));
    }
    match choose(3) {
        0 => {}
        1 => s.push(Step::Num(Sym::sym())),
        _ => s.push(Step::Named(match vars[last].fields.first() {
            Some(f) if vars[last].kind == VK::Struct => f.0.to_string(),
            _ => ascii(1),
        })),
    }
    agree(x, s)
}
fn agree<T: Sym + Typed + Reflect + DescribeType>(x: T, s: Vec<Step>) {
    let p = key_path_of(&s);
    let d = x.type_descriptor();
    let got = d.type_at(&p);
    let v = x.at(&p);
    match (got, nav_ty(T::ty(), &s)) {
        (Some(g), At::Ty(t)) => {
            check(is_type(g, &t), 1);
            if let Some(v) = v {
                check(str_eq(v.as_reflect().type_name(), t.name), 2);
                check(str_eq(v.type_descriptor().type_name(), t.name), 3);
            }
        }
        (Some(g), At::Var(e, n, k)) => match g.as_variant() {
            Some(w) => {
                check(str_eq(w.name(), &n) && str_eq(w.type_name(), e) && str_eq(g.type_name(), e), 4);
                check(
                    match w {
                        Variant::Struct(_) => k == VK::Struct,
                        Variant::Tuple(_) => k == VK::Tuple,
                        Variant::Unit(_) => k == VK::Unit,
                    },
                    5,
                );
                if let Some(v) = v {
                    check(v.as_enum().map_or(false, |v| str_eq(v.variant_name(), &n)), 6);
                }
            }
            None => check(false, 7),
        },
        (g, At::Beyond) => {
            let _ = g;
            check(v.is_none(), 8);
        }
        (None, At::No) => check(v.is_none(), 9),
        _ => check(false, 10),
    }
    // and from the same starting point in its other guise
    let again = d.get_type().type_at(&p);
    check(again == got, 11);
    cover(0);
}
/// fields of an enum are reached through their variant
fn explicit(m: &M, s: &[Step]) -> Vec<Step> {
    let mut out = Vec::new();
    for i in 0..s.len() {
        if let (Some(M::Enum(n, ..)), Step::Named(_) | Step::Num(_)) = (nav(m, &s[..i]), &s[i]) {
            if !matches!(out.last(), Some(Step::Variant(_))) {
                out.push(Step::Variant(n.to_string()));
            }
        }
        out.push(s[i].clone());
    }
    out
}
/// somewhere far into larger values
fn far<T: Sym + Typed + Reflect + DescribeType>() {
    let x = T::sym();
    let s = explicit(&x.model(), &walk(&x.model()));
    agree(x, s)
}

entries! {
    p10_long_list: far::<LongList>();
    p10_long_map: far::<LongMap>();
    p10_long_text: far::<LongText>();
    p10_chain: far::<Chain>();
    p10_named: of_value::<Named>();
    p10_triple: of_value::<Triple>();
    p10_unit: of_value::<Unit>();
    p10_shape: of_value::<Shape>();
    p10_deep_a: of_value::<DeepA>();
    p10_deep_b: of_value::<DeepB>();
    p10_bare: of_value::<Bare>();
    p10_bare_tuple: of_value::<BareTuple>();
    p10_bare_enum: of_value::<BareEnum>();
    p10_listed: of_value::<Listed>();
    p10_tree: of_value::<Tree>();
    p10_expr: of_value::<Expr>();
    p10_skip_named: of_value::<SkipNamed>();
    p10_skip_tuple: of_value::<SkipTuple>();
    p10_skip_enum: of_value::<SkipEnum>();
    p10_words_enum: of_value::<WordsEnum>();
    p10_case: of_value::<CaseNames>();
    p10_case_enum: of_value::<CaseEnum>();
    p10_gen: of_value::<Gen<Pair>>();
    p10_gen_tuple: of_value::<GenT<u16, 2>>();
    p10_gen_enum: of_value::<GenE<u16, 1>>();
    p10_map: of_value::<BTreeMap<u8, Small>>();
    p10_vec: of_value::<Vec<Option<Pair>>>();
    p10_array: of_value::<[Small; 2]>();
    p10_arrays: of_value::<[[u8; 2]; 3]>();
    p10_option: of_value::<Option<Option<String>>>();
    p10_result: of_value::<Result<Pair, String>>();
    p10_boxed: of_value::<Box<Option<Box<u64>>>>();
    p10_range: of_value::<std::ops::Range<u32>>();
    p10_tuple0: of_value::<()>();
    p10_tuple3: of_value::<(u8, Pair, (i8, bool))>();
    p10_nz: of_value::<(std::num::NonZeroU8, u8)>();
    p10_mat3: of_value::<glam::Mat3>();
    p10_crossed_shape: crossed::<Shape>();
    p10_crossed_case: crossed::<CaseEnum>();
    p10_crossed_skip: crossed::<SkipEnum>();
    p10_crossed_expr: crossed::<Expr>();
    p10_crossed_option: crossed::<Option<Option<u8>>>();
    p10_crossed_result: crossed::<Result<Pair, String>>();
    p10_color: of_value::<macaw::ColorRgba8>();
}
