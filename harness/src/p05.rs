//! P05: copies have the content of the original and are independent of it; every view of a value
//! shows the same kind and content
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn copies<T: Sym + Typed + FromReflect>(poking: bool) {
    copies_as::<T, T>(poking)
}
/// a box is transparent: it downcasts to what it holds
fn copies_as<T: Sym + Typed + FromReflect, D: Typed + Reflect>(poking: bool) {
    let mut x = T::sym();
    let m = x.model();
    let mut c = x.clone_reflect();
    let o = x.as_reflect().to_owned();
    let r = T::from_reflect(&x);
    let vals = x.to_value();
    check(agrees(&*c, &m), 1);
    check(agrees(&*o, &m), 2);
    check(agrees(&vals, &m), 3);
    match &r {
        Some(r) => check(agrees(r, &m), 4),
        None => check(false, 5),
    }
    // a copy is a value of the same type
    check(c.downcast_ref::<D>().is_some(), 6);
    check(agrees(&*c.clone_reflect(), &m), 7);
    if poking {
        // changing the original leaves the copies alone, and the other way around
        poke(&mut x);
        let p = m.poked();
        check(agrees(&x, &p), 8);
        check(agrees(&*c, &m), 9);
        check(agrees(&vals, &m), 10);
        if let Some(r) = &r {
            check(agrees(r, &m), 11);
        }
        drop(x);
        check(agrees(&*o, &m), 12);
        poke(&mut *c);
        check(agrees(&*c, &p), 13);
        check(agrees(&*o, &m), 14);
    }
    cover(0);
}

macro_rules! kinds {
    ($k:expr, $id:expr, $($want:ident $e:expr;)*) => { $( check($e.is_some() == ($k == Kind::$want), $id); )* };
}
/// all the views of a value agree on what it is
fn view(x: &mut dyn Reflect, m: &M, mutable_scalar: bool) {
    let k = m.kind();
    kinds! { k, 1,
        Scalar x.as_scalar(); Struct x.as_struct(); TStruct x.as_tuple_struct(); Tuple x.as_tuple();
        Enum x.as_enum(); List x.as_list(); Array x.as_array(); Map x.as_map();
    }
    kinds! { k, 2,
        Scalar x.reflect_ref().as_scalar(); Struct x.reflect_ref().as_struct(); TStruct x.reflect_ref().as_tuple_struct();
        Tuple x.reflect_ref().as_tuple(); Enum x.reflect_ref().as_enum(); List x.reflect_ref().as_list();
        Array x.reflect_ref().as_array(); Map x.reflect_ref().as_map(); Opaque x.reflect_ref().as_opaque();
    }
    check(agrees(x.as_reflect(), m), 3);
    check(agrees(x.as_reflect_mut(), m), 4);
    check(agrees(x.reflect_ref().as_reflect(), m), 5);
    if mutable_scalar {
        kinds! { k, 6,
            Scalar x.as_scalar_mut(); Struct x.as_struct_mut(); TStruct x.as_tuple_struct_mut(); Tuple x.as_tuple_mut();
            Enum x.as_enum_mut(); List x.as_list_mut(); Array x.as_array_mut(); Map x.as_map_mut();
        }
        kinds! { k, 7,
            Scalar x.reflect_mut().as_scalar_mut(); Struct x.reflect_mut().as_struct_mut(); TStruct x.reflect_mut().as_tuple_struct_mut();
            Tuple x.reflect_mut().as_tuple_mut(); Enum x.reflect_mut().as_enum_mut(); List x.reflect_mut().as_list_mut();
            Array x.reflect_mut().as_array_mut(); Map x.reflect_mut().as_map_mut(); Opaque x.reflect_mut().as_opaque_mut();
        }
    }
    check(agrees(x.reflect_mut().as_reflect(), m), 8);
    check(agrees(x.reflect_mut().as_reflect_mut(), m), 9);
}
fn views<T: Sym + Typed + FromReflect>(mutable_scalar: bool) {
    views_as::<T, T>(mutable_scalar)
}
fn views_as<T: Sym + Typed + FromReflect, D: Typed + Reflect>(mutable_scalar: bool) {
    let mut x = T::sym();
    let m = x.model();
    let k = m.kind();
    view(&mut x, &m, mutable_scalar);
    owned(&|| x.clone_reflect(), &m);
    // the value behind a reference is found by its type, and only by its type
    check(Reflect::type_id(&x) == std::any::TypeId::of::<T>(), 20);
    check(str_eq(Reflect::type_name(&x), std::any::type_name::<T>()), 21);
    match x.as_reflect().downcast_ref::<D>() {
        Some(y) => check(y.model().eq(&m), 22),
        None => check(false, 23),
    }
    match x.as_reflect_mut().downcast_mut::<D>() {
        Some(y) => check(y.model().eq(&m), 24),
        None => check(false, 25),
    }
    check(x.as_reflect().downcast_ref::<Unrelated>().is_none(), 26);
    check(x.as_reflect_mut().downcast_mut::<Unrelated>().is_none(), 27);
    if k != Kind::Array {
        let mut v = m.value();
        view(&mut v, &m, true);
        owned(&|| Box::new(v.clone()), &m);
    }
    cover(0);
}
type Unrelated = (u8, (u8, (u8, (u8, u8))));
fn owned(x: &dyn Fn() -> Box<dyn Reflect>, m: &M) {
    let k = m.kind();
    kinds! { k, 10,
        Scalar x().into_scalar(); Struct x().into_struct(); TStruct x().into_tuple_struct(); Tuple x().into_tuple();
        Enum x().into_enum(); List x().into_list(); Array x().into_array(); Map x().into_map();
        Opaque x().reflect_owned().into_opaque();
    }
    let mut o = x().reflect_owned();
    check(agrees(o.as_reflect(), m), 11);
    check(agrees(o.as_reflect_mut(), m), 12);
    let c = o.clone();
    check(agrees(c.as_reflect(), m), 13);
    poke(o.as_reflect_mut());
    check(agrees(o.as_reflect(), &m.poked()), 14);
    check(agrees(c.as_reflect(), m), 15);
}
/// scalars can be replaced through the mutable view
fn scalar<T: Sym + Typed + FromReflect + Scalar>() {
    let mut x = T::sym();
    let m = x.sc();
    match x.as_scalar_mut() {
        Some(mut s) => {
            check(scalar_ref(s.as_reflect().as_scalar().unwrap()).eq(&m), 1);
            check(scalar_ref(s.as_reflect_mut().as_scalar().unwrap()).eq(&m), 2);
            poke_scalar(s)
        }
        None => check(false, 3),
    }
    check(x.sc().eq(&m.poked()), 4);
    views::<T>(true);
}
fn opaque() {
    let mut h = Hidden(Sym::sym());
    let b = h.0;
    check(matches!(h.reflect_ref(), ReflectRef::Opaque(_)), 1);
    check(h.as_scalar().is_none() && h.as_struct().is_none() && h.as_map().is_none(), 2);
    check(h.reflect_ref().as_reflect().downcast_ref::<Hidden>().map(|x| x.0) == Some(b), 3);
    check(h.reflect_mut().as_reflect_mut().downcast_mut::<Hidden>().map(|x| x.0) == Some(b), 4);
    let o = ReflectOwned::Opaque(Box::new(h));
    let mut c = o.clone();
    check(c.as_reflect().downcast_ref::<Hidden>().map(|x| x.0) == Some(b), 5);
    check(c.as_reflect_mut().downcast_mut::<Hidden>().map(|x| x.0) == Some(b), 6);
    check(o.into_opaque().is_some(), 7);
    let x = HasHidden { a: Sym::sym(), h: Hidden(b), b: Sym::sym() };
    let (xa, xb) = (x.a, x.b);
    let mut c = x.clone_reflect();
    match c.downcast_mut::<HasHidden>() {
        Some(c) => check(c.a == xa && c.b == xb && c.h.0 == b, 8),
        None => check(false, 9),
    }
    cover(0);
}

/// moved into a generic value instead of copied
fn into_value<T: Sym + Typed + FromReflect + Into<Value>>() {
    let x = T::sym();
    let m = x.model();
    let v = x.to_value();
    let o: Value = x.into();
    check(agrees(&o, &m), 1);
    check(o == v && v == o, 2);
    check(Value::from(v.as_reflect()) == o, 3);
    cover(0);
}

entries! {
    p05_m_scalars: into_value::<Scalars>();
    p05_m_triple: into_value::<Triple>();
    p05_m_unit: into_value::<Unit>();
    p05_m_shape: into_value::<Shape>();
    p05_m_skip_named: into_value::<SkipNamed>();
    p05_m_skip_tuple: into_value::<SkipTuple>();
    p05_m_skip_enum: into_value::<SkipEnum>();
    p05_m_bare_enum: into_value::<BareEnum>();
    p05_m_gen: into_value::<GenE<u16, 1>>();
    p05_m_vec: into_value::<Vec<Option<Pair>>>();
    p05_m_array: into_value::<[Small; 2]>();
    p05_m_map: into_value::<BTreeMap<String, Small>>();
    p05_m_boxed: into_value::<Box<Pair>>();
    p05_m_nz: into_value::<std::num::NonZeroU8>();
    p05_m_u128: into_value::<u128>();
    p05_m_f64: into_value::<f64>();
    p05_m_string: into_value::<String>();
    p05_long_list: copies::<LongList>(true);
    p05_long_map: copies::<LongMap>(true);
    p05_long_text: copies::<LongText>(true);
    p05_chain: copies::<Chain>(true);
    p05_long_list_views: views::<LongList>(true);
    p05_long_map_views: views::<LongMap>(true);
    p05_long_text_views: views::<LongText>(true);
    p05_chain_views: views::<Chain>(true);
    p05_opaque: opaque();
    p05_usize: scalar::<usize>();
    p05_u8: scalar::<u8>();
    p05_u16: scalar::<u16>();
    p05_u32: scalar::<u32>();
    p05_u64: scalar::<u64>();
    p05_u128: scalar::<u128>();
    p05_i8: scalar::<i8>();
    p05_i16: scalar::<i16>();
    p05_i32: scalar::<i32>();
    p05_i64: scalar::<i64>();
    p05_i128: scalar::<i128>();
    p05_bool: scalar::<bool>();
    p05_char: scalar::<char>();
    p05_f32: scalar::<f32>();
    p05_f64: scalar::<f64>();
    p05_string: scalar::<String>();
    p05_c_scalars: copies::<Scalars>(true);
    p05_c_named: copies::<Named>(true);
    p05_c_triple: copies::<Triple>(true);
    p05_c_unit: copies::<Unit>(true);
    p05_c_shape: copies::<Shape>(true);
    p05_c_deep: copies::<Deep>(true);
    p05_c_bare: copies::<Bare>(true);
    p05_c_bare_tuple: copies::<BareTuple>(true);
    p05_c_bare_enum: copies::<BareEnum>(true);
    p05_c_listed: copies::<Listed>(true);
    p05_c_tree: copies::<Tree>(true);
    p05_c_expr: copies::<Expr>(true);
    p05_c_skip_named: copies::<SkipNamed>(true);
    p05_c_skip_tuple: copies::<SkipTuple>(true);
    p05_c_skip_enum: copies::<SkipEnum>(true);
    p05_c_words_enum: copies::<WordsEnum>(true);
    p05_c_case: copies::<CaseNames>(true);
    p05_c_case_enum: copies::<CaseEnum>(true);
    p05_c_wide: copies::<Wide>(true);
    p05_c_gen: copies::<Gen<Small>>(true);
    p05_gen_tuple: copies::<GenT<u16, 2>>(true);
    p05_gen_enum: copies::<GenE<u16, 1>>(true);
    p05_c_map: copies::<BTreeMap<String, Small>>(true);
    p05_c_vec: copies::<Vec<Option<Pair>>>(true);
    p05_c_array: copies::<[Small; 2]>(true);
    p05_c_option: copies::<Option<Option<String>>>(true);
    p05_c_result: copies::<Result<Pair, String>>(true);
    p05_c_boxed: copies_as::<Box<Option<Box<u64>>>, Option<Box<u64>>>(true);
    p05_c_range: copies::<std::ops::Range<u32>>(true);
    p05_c_tuple: copies::<(u8, Pair, (i8, String))>(true);
    p05_c_nz: copies::<(std::num::NonZeroU8, Option<std::num::NonZeroI128>)>(false);
    p05_c_mat3: copies::<glam::Mat3>(true);
    p05_c_color: copies::<macaw::ColorRgba8>(true);
    p05_v_named: views::<Named>(true);
    p05_v_triple: views::<Triple>(true);
    p05_v_unit: views::<Unit>(true);
    p05_v_empty_tuple: views::<EmptyTuple>(true);
    p05_v_shape: views::<Shape>(true);
    p05_v_bare: views::<Bare>(true);
    p05_v_bare_tuple: views::<BareTuple>(true);
    p05_v_bare_enum: views::<BareEnum>(true);
    p05_v_expr: views::<Expr>(true);
    p05_v_map: views::<BTreeMap<u8, Small>>(true);
    p05_v_vec: views::<Vec<Pair>>(true);
    p05_v_array: views::<[Small; 2]>(true);
    p05_v_option: views::<Option<u16>>(true);
    p05_v_result: views::<Result<u8, i8>>(true);
    p05_v_boxed: views_as::<Box<Pair>, Pair>(true);
    p05_v_box_enum: views_as::<Box<Small>, Small>(true);
    p05_v_box_vec: views_as::<Box<Vec<u8>>, Vec<u8>>(true);
    p05_v_range: views::<std::ops::Range<u32>>(true);
    p05_v_tuple0: views::<()>(true);
    p05_v_tuple2: views::<(u8, i8)>(true);
    p05_v_tuple16: views::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(true);
    p05_v_vec3d: views::<glam::Vec3>(true);
    p05_v_color: views::<macaw::ColorRgba8>(true);
}
