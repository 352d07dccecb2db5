//! P16: the description of a type lists exactly its reflected parts, with their names, order, kinds and types
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::*;

fn kind_is(t: Type<'_>, k: &K) -> bool {
    (t.as_scalar().is_some() == matches!(k, K::Scalar(_)))
        & (t.as_opaque().is_some() == matches!(k, K::NonZero(_)))
        & (t.as_struct().is_some() == matches!(k, K::Struct(_)))
        & (t.as_tuple_struct().is_some() == matches!(k, K::TStruct(_)))
        & (t.as_tuple().is_some() == matches!(k, K::Tuple(_)))
        & (t.as_enum().is_some() == matches!(k, K::Enum(_)))
        & (t.as_list().is_some() == matches!(k, K::List(_)))
        & (t.as_array().is_some() == matches!(k, K::Array(..)))
        & (t.as_map().is_some() == matches!(k, K::Map(..)))
}
fn tag_of(s: ScalarType) -> Tag {
    match s {
        ScalarType::usize => Tag::usize,
        ScalarType::u8 => Tag::u8,
        ScalarType::u16 => Tag::u16,
        ScalarType::u32 => Tag::u32,
        ScalarType::u64 => Tag::u64,
        ScalarType::u128 => Tag::u128,
        ScalarType::i8 => Tag::i8,
        ScalarType::i16 => Tag::i16,
        ScalarType::i32 => Tag::i32,
        ScalarType::i64 => Tag::i64,
        ScalarType::i128 => Tag::i128,
        ScalarType::bool => Tag::bool,
        ScalarType::char => Tag::char,
        ScalarType::f32 => Tag::f32,
        ScalarType::f64 => Tag::f64,
        ScalarType::String => Tag::String,
    }
}
/// the whole description, every type once
fn mirrors(t: Type<'_>, ty: Ty, seen: &mut Vec<&'static str>) {
    check(str_eq(t.type_name(), ty.name), 1);
    check(kind_is(t, &ty.k), 2);
    if seen.contains(&ty.name) {
        return;
    }
    seen.push(ty.name);
    // a description of its own
    let d = t.into_type_descriptor();
    check(str_eq(d.type_name(), ty.name) && str_eq(d.get_type().type_name(), ty.name), 3);
    let t2 = d.get_type();
    check(kind_is(t2, &ty.k), 4);
    match &ty.k {
        K::Scalar(tag) => {
            if let Some(s) = t.as_scalar() {
                check(tag_of(s) == *tag, 5);
            }
        }
        K::NonZero(_) => {}
        K::Struct(f) => {
            let (Some(s), Some(s2)) = (t.as_struct(), t2.as_struct()) else { return check(false, 6) };
            check(s.fields_len() == f.len() && s2.fields_len() == f.len(), 7);
            let mut it = s.field_types();
            let mut it2 = s2.field_types();
            for (i, (n, ty)) in f.iter().enumerate() {
                match (it.next(), it2.next()) {
                    (Some(x), Some(y)) => {
                        check(str_eq(x.name(), n) && str_eq(y.name(), n), 8);
                        mirrors(x.get_type(), ty(), seen);
                        check(str_eq(y.get_type().type_name(), ty().name), 9);
                    }
                    _ => check(false, 10),
                }
                check(s.field_type(n).map_or(false, |x| str_eq(x.name(), n) && str_eq(x.get_type().type_name(), ty().name)), 11);
                check(s.field_type_at(i).map_or(false, |x| str_eq(x.name(), n) && str_eq(x.get_type().type_name(), ty().name)), 12);
            }
            check(it.next().is_none() && it2.next().is_none(), 13);
        }
        K::TStruct(f) => {
            let Some(s) = t.as_tuple_struct() else { return check(false, 14) };
            check(s.fields_len() == f.len(), 15);
            let mut it = s.field_types();
            for (i, ty) in f.iter().enumerate() {
                match it.next() {
                    Some(x) => mirrors(x.get_type(), ty(), seen),
                    _ => check(false, 16),
                }
                check(s.field_type_at(i).map_or(false, |x| str_eq(x.get_type().type_name(), ty().name)), 17);
            }
            check(it.next().is_none(), 18);
        }
        K::Tuple(f) => {
            let Some(s) = t.as_tuple() else { return check(false, 19) };
            check(s.fields_len() == f.len(), 20);
            let mut it = s.field_types();
            for (i, ty) in f.iter().enumerate() {
                match it.next() {
                    Some(x) => mirrors(x.get_type(), ty(), seen),
                    _ => check(false, 21),
                }
                check(s.field_type_at(i).map_or(false, |x| str_eq(x.get_type().type_name(), ty().name)), 22);
            }
            check(it.next().is_none(), 23);
        }
        K::Enum(vars) => {
            let Some(e) = t.as_enum() else { return check(false, 24) };
            check(e.variants_len() == vars.len(), 25);
            let mut it = e.variants();
            for v in vars {
                let Some(w) = it.next() else { return check(false, 26) };
                check(variant_is(w, v, ty.name), 27);
                check(e.variant(v.name).map_or(false, |w| variant_is(w, v, ty.name)), 28);
                let mut fs = w.field_types();
                for (n, ty) in &v.fields {
                    match fs.next() {
                        Some(x) => {
                            check(x.name().map_or(v.kind == VK::Tuple, |x| v.kind == VK::Struct && str_eq(x, n)), 29);
                            mirrors(x.get_type(), ty(), seen);
                        }
                        None => check(false, 30),
                    }
                }
                check(fs.next().is_none(), 31);
            }
            check(it.next().is_none(), 32);
        }
        K::List(f) => {
            let Some(l) = t.as_list() else { return check(false, 33) };
            mirrors(l.element_type(), f(), seen);
        }
        K::Array(f, n) => {
            let Some(l) = t.as_array() else { return check(false, 34) };
            check(l.len() == *n && l.is_empty() == (*n == 0), 35);
            mirrors(l.element_type(), f(), seen);
        }
        K::Map(k, v) => {
            let Some(l) = t.as_map() else { return check(false, 36) };
            mirrors(l.key_type(), k(), seen);
            mirrors(l.value_type(), v(), seen);
        }
    }
}
fn variant_is(w: Variant<'_>, v: &Var, of: &str) -> bool {
    str_eq(w.name(), v.name)
        && str_eq(w.type_name(), of)
        && str_eq(w.enum_type().type_name(), of)
        && w.fields_len() == v.fields.len()
        && match w {
            Variant::Struct(w) => v.kind == VK::Struct && w.fields_len() == v.fields.len() && str_eq(w.name(), v.name),
            Variant::Tuple(w) => v.kind == VK::Tuple && w.fields_len() == v.fields.len() && str_eq(w.name(), v.name),
            Variant::Unit(w) => v.kind == VK::Unit && str_eq(w.name(), v.name),
        }
}
fn described<T: Sym + Typed + Reflect + DescribeType>() {
    let d = <T as DescribeType>::type_descriptor();
    mirrors(d.get_type(), T::ty(), &mut Vec::new());
    // the same from a value of the type
    let x = T::sym();
    let e = x.type_descriptor();
    check(str_eq(e.type_name(), T::ty().name) && *e == *d, 37);
    lockstep(&x, e.get_type());
    cover(0);
}
/// the parts of a value have the types the description says
fn lockstep(x: &dyn Reflect, t: Type<'_>) {
    check(str_eq(x.as_reflect().type_name(), t.type_name()), 40);
    match x.reflect_ref() {
        ReflectRef::Struct(s) => {
            let Some(t) = t.as_struct() else { return check(false, 41) };
            check(s.fields_len() == t.fields_len(), 42);
            for (n, x) in s.fields() {
                match t.field_type(n) {
                    Some(t) => lockstep(x, t.get_type()),
                    None => check(false, 43),
                }
            }
        }
        ReflectRef::TupleStruct(s) => {
            let Some(t) = t.as_tuple_struct() else { return check(false, 44) };
            check(s.fields_len() == t.fields_len(), 45);
            for (x, t) in s.fields().zip(t.field_types()) {
                lockstep(x, t.get_type());
            }
        }
        ReflectRef::Tuple(s) => {
            let Some(t) = t.as_tuple() else { return check(false, 46) };
            check(s.fields_len() == t.fields_len(), 47);
            for (x, t) in s.fields().zip(t.field_types()) {
                lockstep(x, t.get_type());
            }
        }
        ReflectRef::Enum(s) => {
            let Some(t) = t.as_enum() else { return check(false, 48) };
            let Some(v) = t.variant(s.variant_name()) else { return check(false, 49) };
            check(v.fields_len() == s.fields_len(), 50);
            for (x, t) in s.fields().zip(v.field_types()) {
                let x = match x {
                    enum_::VariantField::Struct(_, x) | enum_::VariantField::Tuple(x) => x,
                };
                lockstep(x, t.get_type());
            }
        }
        ReflectRef::List(s) => {
            let Some(t) = t.as_list() else { return check(false, 51) };
            for x in s.iter() {
                lockstep(x, t.element_type());
            }
        }
        ReflectRef::Array(s) => {
            let Some(t) = t.as_array() else { return check(false, 52) };
            check(s.len() == t.len(), 53);
            for x in s.iter() {
                lockstep(x, t.element_type());
            }
        }
        ReflectRef::Map(s) => {
            let Some(t) = t.as_map() else { return check(false, 54) };
            for (k, x) in s.iter() {
                lockstep(k, t.key_type());
                lockstep(x, t.value_type());
            }
        }
        ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => check(t.as_scalar().is_some() || t.as_opaque().is_some(), 55),
    }
}
fn m_of(f: &[(&'static str, TyFn)]) -> Vec<(&'static str, M)> {
    f.iter().map(|x| (x.0, M::List(vec![]))).collect()
}
/// any name, any position
fn probed<T: Typed + DescribeType>() {
    let d = <T as DescribeType>::type_descriptor();
    let i: usize = Sym::sym();
    let at = |f: &Vec<TyFn>| nth(f, i).map(|t| t().name);
    let same = |a: Option<&str>, b: Option<&str>| match (a, b) {
        (Some(a), Some(b)) => str_eq(a, b),
        (None, None) => true,
        _ => false,
    };
    match (d.get_type(), &T::ty().k) {
        (Type::Struct(s), K::Struct(f)) => {
            if flip() {
                let x = s.field_type_at(i);
                check(same(x.map(|x| x.get_type().type_name()), nth(f, i).map(|f| f.1().name)), 60);
                check(same(x.map(|x| x.name()), nth(f, i).map(|f| f.0)), 61);
            } else {
                let n = near_name(&m_of(f));
                let want = f.iter().find(|x| str_eq(x.0, &n));
                check(same(s.field_type(&n).map(|x| x.get_type().type_name()), want.map(|f| f.1().name)), 62);
            }
        }
        (Type::TupleStruct(s), K::TStruct(f)) => check(same(s.field_type_at(i).map(|x| x.get_type().type_name()), at(f)), 63),
        (Type::Tuple(s), K::Tuple(f)) => check(same(s.field_type_at(i).map(|x| x.get_type().type_name()), at(f)), 64),
        (Type::Enum(e), K::Enum(vars)) => {
            let names: Vec<(&'static str, M)> = vars.iter().map(|v| (v.name, M::List(vec![]))).collect();
            if flip() {
                let n = near_name(&names);
                match (e.variant(&n), vars.iter().find(|v| str_eq(v.name, &n))) {
                    (Some(w), Some(v)) => check(variant_is(w, v, T::ty().name), 65),
                    (None, None) => {}
                    _ => check(false, 66),
                }
            } else {
                let v = &vars[choose(vars.len())];
                let Some(w) = e.variant(v.name) else { return check(false, 67) };
                if flip() {
                    let x = w.field_type_at(i);
                    let want = nth(&v.fields, i);
                    check(same(x.map(|x| x.get_type().type_name()), want.map(|f| f.1().name)), 68);
                    if v.kind == VK::Struct {
                        check(same(x.and_then(|x| x.name()), want.map(|f| f.0)), 69);
                    }
                } else {
                    let n = near_name(&if v.kind == VK::Struct { m_of(&v.fields) } else { vec![] });
                    let want = if v.kind == VK::Struct { v.fields.iter().find(|x| str_eq(x.0, &n)) } else { None };
                    check(same(w.field_type(&n).map(|x| x.get_type().type_name()), want.map(|f| f.1().name)), 70);
                }
            }
        }
        _ => check(false, 71),
    }
    cover(0);
}
/// different types of the same full name
fn namesakes() {
    let one = {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            a: u8,
        }
        Same { a: any_u8() }
    };
    let two = {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            b: String,
            c: u16,
        }
        Same { b: String::new(), c: 1 }
    };
    let three = {
        #[derive(Reflect, Clone, Debug)]
        enum Same {
            A(u32),
        }
        Same::A(1)
    };
    fn look<A: DescribeType + FromReflect + Clone, B: DescribeType + FromReflect + Clone, C: DescribeType + FromReflect + Clone>(a: &A, b: &B, c: &C) {
        let d: std::borrow::Cow<'static, TypeDescriptor> = match choose(3) {
            0 => <(A, B, C) as DescribeType>::type_descriptor(),
            1 => <(Vec<C>, Option<B>, A) as DescribeType>::type_descriptor(),
            _ => <(B, (C, A), u8) as DescribeType>::type_descriptor(),
        };
        of(d.get_type());
        for x in [a.type_descriptor().get_type(), b.type_descriptor().get_type(), c.type_descriptor().get_type()] {
            of(x);
        }
        let Some(t) = d.as_tuple() else { return check(false, 0) };
        let (f, g, h) = (t.field_type_at(0).unwrap().get_type(), t.field_type_at(1).unwrap().get_type(), t.field_type_at(2).unwrap().get_type());
        let want = if let Some(f) = f.as_list() {
            [of(f.element_type()), of(g.as_enum().unwrap().variant("Some").unwrap().field_type_at(0).unwrap().get_type()), of(h)] == [3, 2, 1]
        } else if let Some(g) = g.as_tuple() {
            [of(f), of(g.field_type_at(0).unwrap().get_type()), of(g.field_type_at(1).unwrap().get_type())] == [2, 3, 1]
        } else {
            [of(f), of(g), of(h)] == [1, 2, 3]
        };
        check(want, 80);
    }
    fn of(t: Type<'_>) -> u8 {
        if let Some(e) = t.as_enum() {
            return if e.variants_len() == 1 && e.variant("A").is_some() { 3 } else { 0 };
        }
        match t.as_struct() {
            Some(s) if s.fields_len() == 1 && s.field_type("a").is_some() => 1,
            Some(s) if s.fields_len() == 2 && s.field_type("b").is_some() && s.field_type("c").is_some() => 2,
            _ => 0,
        }
    }
    look(&one, &two, &three);
    cover(0);
}

/// the iterators of a description, but not step by step
fn skimmed<T: Typed + DescribeType>() {
    let ty = T::ty();
    let d = <T as DescribeType>::type_descriptor();
    let t = d.get_type();
    match &ty.k {
        K::Struct(f) => {
            let Some(s) = t.as_struct() else { return check(false, 200) };
            skims!(s.field_types(), f.len(), |x: NamedField<'_>, i: usize| str_eq(x.name(), f[i].0) && str_eq(x.get_type().type_name(), (f[i].1)().name), 201)
        }
        K::TStruct(f) => {
            let Some(s) = t.as_tuple_struct() else { return check(false, 210) };
            skims!(s.field_types(), f.len(), |x: UnnamedField<'_>, i: usize| str_eq(x.get_type().type_name(), f[i]().name), 211)
        }
        K::Tuple(f) => {
            let Some(s) = t.as_tuple() else { return check(false, 220) };
            skims!(s.field_types(), f.len(), |x: UnnamedField<'_>, i: usize| str_eq(x.get_type().type_name(), f[i]().name), 221)
        }
        K::Enum(vars) => {
            let Some(e) = t.as_enum() else { return check(false, 230) };
            if flip() {
                skims!(e.variants(), vars.len(), |w, i: usize| variant_is(w, &vars[i], ty.name), 231)
            } else {
                let v = &vars[choose(vars.len())];
                let Some(w) = e.variant(v.name) else { return check(false, 240) };
                skims!(
                    w.field_types(),
                    v.fields.len(),
                    |x: type_info::VariantField<'_>, i: usize| x.name().map_or(v.kind == VK::Tuple, |n| str_eq(n, v.fields[i].0))
                        && str_eq(x.get_type().type_name(), (v.fields[i].1)().name),
                    241
                )
            }
        }
        _ => check(false, 250),
    }
    cover(0);
}

entries! {
    p16_k_named: skimmed::<Named>();
    p16_k_triple: skimmed::<Triple>();
    p16_k_tuple3: skimmed::<(u8, u16, bool)>();
    p16_k_shape: skimmed::<Shape>();
    p16_k_skip_enum: skimmed::<SkipEnum>();
    p16_namesakes: namesakes();
    p16_scalars: described::<Scalars>();
    p16_named: described::<Named>();
    p16_triple: described::<Triple>();
    p16_unit: described::<Unit>();
    p16_empty: described::<Empty>();
    p16_empty_tuple: described::<EmptyTuple>();
    p16_shape: described::<Shape>();
    p16_deep: described::<Deep>();
    p16_deep_a: described::<DeepA>();
    p16_deep_b: described::<DeepB>();
    p16_bare: described::<Bare>();
    p16_bare_tuple: described::<BareTuple>();
    p16_bare_enum: described::<BareEnum>();
    p16_listed: described::<Listed>();
    p16_tree: described::<Tree>();
    p16_expr: described::<Expr>();
    p16_skip_named: described::<SkipNamed>();
    p16_skip_tuple: described::<SkipTuple>();
    p16_skip_enum: described::<SkipEnum>();
    p16_words: described::<Words>();
    p16_case: described::<CaseNames>();
    p16_words_enum: described::<WordsEnum>();
    p16_case_enum: described::<CaseEnum>();
    p16_wide: described::<Wide>();
    p16_wide_tuple: described::<WideTuple>();
    p16_gen: described::<Gen<Pair>>();
    p16_gen_tuple: described::<GenT<u16, 2>>();
    p16_gen_enum: described::<GenE<u16, 1>>();
    p16_gen2: described::<Gen<Gen<u8>>>();
    p16_vec: described::<Vec<Option<u16>>>();
    p16_array: described::<[Small; 2]>();
    p16_arrays: described::<[[u8; 2]; 1]>();
    p16_array0: described::<[u8; 0]>();
    p16_map: described::<BTreeMap<u8, Small>>();
    p16_map_nz: described::<BTreeMap<NonZeroU8, [u8; 1]>>();
    p16_option: described::<Option<Option<String>>>();
    p16_result: described::<Result<Pair, String>>();
    p16_boxed: described::<Box<Option<Box<u64>>>>();
    p16_range: described::<std::ops::Range<u32>>();
    p16_range_from: described::<std::ops::RangeFrom<u8>>();
    p16_range_to: described::<std::ops::RangeTo<u8>>();
    p16_range_to_incl: described::<std::ops::RangeToInclusive<u8>>();
    p16_range_full: described::<std::ops::RangeFull>();
    p16_tuple0: described::<()>();
    p16_tuple1: described::<(u8,)>();
    p16_tuple3: described::<(u8, Pair, (i8, bool))>();
    p16_tuple16: described::<(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char, f32, f64, usize, String)>();
    p16_nz: described::<(NonZeroU8, NonZeroI64)>();
    p16_vec3d: described::<glam::Vec3>();
    p16_mat3: described::<glam::Mat3>();
    p16_color: described::<macaw::ColorRgba8>();
    p16_q_named: probed::<Named>();
    p16_q_triple: probed::<Triple>();
    p16_q_shape: probed::<Shape>();
    p16_q_deep: probed::<Deep>();
    p16_q_skip_named: probed::<SkipNamed>();
    p16_q_skip_tuple: probed::<SkipTuple>();
    p16_q_skip_enum: probed::<SkipEnum>();
    p16_q_words: probed::<Words>();
    p16_q_case: probed::<CaseNames>();
    p16_q_words_enum: probed::<WordsEnum>();
    p16_q_case_enum: probed::<CaseEnum>();
    p16_q_wide: probed::<Wide>();
    p16_q_wide_tuple: probed::<WideTuple>();
    p16_q_option: probed::<Option<u8>>();
    p16_q_tuple3: probed::<(u8, u16, bool)>();
    p16_q_range: probed::<std::ops::Range<u32>>();
}
