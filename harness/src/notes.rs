//! types with metadata and documentation, and what is known about them
#![allow(dead_code)]
use crate::model::*;
use crate::sx::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::graph::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// the numbers in the metadata
pub static mut SLOTS: [u8; 24] = [0; 24];
pub fn slot(i: usize) -> u8 {
    unsafe { SLOTS[i] }
}
pub fn fill() {
    for i in 0..24 {
        unsafe { SLOTS[i] = any_u8() }
    }
}

#[derive(Reflect, Clone, Debug)]
pub struct Pt(u8, bool);
#[derive(Reflect, Clone, Debug, Default)]
pub struct Plain {
    pub x: u8,
}
/// a struct
///
///  with more to say
#[doc = "\tand a break  "]
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(n = slot(0), text = "t", flag = true))]
pub struct MStruct {
    /// first
    #[reflect(meta(n = slot(1)))]
    pub a: u8,
    /// hidden
    #[reflect(skip, meta(n = slot(2), gone = 1))]
    pub b: u8,
    pub c: Plain,
    /// last
    #[reflect(meta(n = slot(3), at = Pt(slot(4), true), n2 = slot(5)))]
    /// of all
    pub d: Option<MEnum>,
    #[allow(dead_code)]
    #[reflect(meta(list = vec![slot(6), 1u8]))]
    pub e: MTuple,
}
/// a tuple struct
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(n = slot(7)))]
pub struct MTuple(
    /// hidden
    #[reflect(skip, meta(n = slot(8)))]
    pub u8,
    #[doc = " one "]
    #[reflect(meta(n = slot(9)))]
    pub u8,
    pub Plain,
    /// three
    #[reflect(meta(m = slot(10), n = 'c'))]
    pub Vec<u8>,
);
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(n = slot(11)))]
/// an enum
#[doc = ""]
pub enum MEnum {
    /// a
    #[reflect(meta(n = slot(12)))]
    A {
        /// a.x
        #[reflect(meta(n = slot(13)))]
        x: u8,
        #[reflect(skip, meta(n = slot(14)))]
        y: u8,
        #[reflect(meta(z = slot(15)))]
        z: Plain,
    },
    #[reflect(meta(b = slot(16)))]
    B(
        #[reflect(skip, meta(n = slot(17)))]
        /// hidden
        u8,
        /// b.0
        #[reflect(meta(n = slot(18)))]
        u8,
        u8,
    ),
    /// c
    /// cc
    C,
    #[reflect(meta(d = slot(19)))]
    D,
    E(),
}
/// no metadata
#[derive(Reflect, Clone, Debug)]
pub struct MUnit;
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(n = slot(20)))]
pub struct MGen<T: Reflect + Clone + std::fmt::Debug + FromReflect + DescribeType>
where
    T: Reflect,
{
    /// of any type
    #[reflect(meta(n = slot(21)))]
    pub t: T,
}
/// described by hand
pub struct MOpaque;
impl DescribeType for MOpaque {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            OpaqueNode::new::<Self>(BTreeMap::from([("n", Value::from(slot(22))), ("text", Value::from("t"))]), graph).default_value(slot(23))
        })
    }
}

pub type Meta = Vec<(&'static str, M)>;
pub fn n(s: u8) -> M {
    M::S((s).sc())
}
pub fn near_key(m: &Meta) -> String {
    near_name(m)
}
pub fn about<'a, G: GetMeta<'a> + Copy>(g: G, m: Meta, docs: &[&str], id: u32) {
    for (k, v) in &m {
        check(g.meta(k).map_or(false, |x| agrees(x, v)), id);
    }
    let k = near_key(&m);
    let want = m.iter().find(|x| str_eq(x.0, &k)).map(|x| &x.1);
    check(
        match (g.meta(&k), want) {
            (Some(x), Some(v)) => agrees(x, v),
            (None, None) => true,
            _ => false,
        },
        id + 1,
    );
    let num = |x: Option<&M>| match x {
        Some(M::S(s)) if s.tag == Tag::u8 => Some(s.bits as u8),
        _ => None,
    };
    check(g.get_meta::<u8>(&k) == num(want), id + 2);
    check(g.get_meta::<bool>(&k).is_some() == matches!(want, Some(M::S(s)) if s.tag == Tag::bool), id + 3);
    check(g.get_meta::<Pt>(&k).is_some() == matches!(want, Some(M::TStruct(_))), id + 4);
    let d = g.docs();
    check(d.len() == docs.len() && d.iter().zip(docs).all(|(a, b)| str_eq(a, b)), id + 5);
}

pub fn of_struct(t: Type<'_>) {
    let m = || -> Meta { vec![("n", n(slot(0))), ("text", M::S(("t".to_owned()).sc())), ("flag", M::S((true).sc()))] };
    let d: &[&str] = &[" a struct", "", "  with more to say", "\tand a break  "];
    let Some(s) = t.as_struct() else { return check(false, 0) };
    match choose(4) {
        0 => return about(t, m(), d, 10),
        1 => return about(s, m(), d, 10),
        2 => {
            let own = s.into_type_descriptor();
            return about(&own, m(), d, 10);
        }
        _ => {}
    }
    check(s.fields_len() == 4, 1);
    let i = choose(5);
    let name = ["a", "c", "d", "e", "b"][i];
    let f = match choose(3) {
        0 => s.field_type(name),
        1 => s.field_type_at(i),
        _ => s.field_types().nth(i),
    };
    check(f.is_some() == (i < 4), 2);
    let Some(f) = f else { return };
    let (m, d): (Meta, &[&str]) = match i {
        0 => (vec![("n", n(slot(1)))], &[" first"]),
        1 => (vec![], &[]),
        2 => (vec![("n", n(slot(3))), ("at", M::TStruct(vec![n(slot(4)), M::S((true).sc())])), ("n2", n(slot(5)))], &[" last", " of all"]),
        _ => (vec![("list", M::List(vec![n(slot(6)), n(1)]))], &[]),
    };
    about(f, m, d, 20);
    cover(i as u32);
}
pub fn of_tuple_struct(t: Type<'_>) {
    let m = || -> Meta { vec![("n", n(slot(7)))] };
    let Some(s) = t.as_tuple_struct() else { return check(false, 0) };
    match choose(4) {
        0 => return about(t, m(), &[" a tuple struct"], 10),
        1 => return about(s, m(), &[" a tuple struct"], 10),
        2 => {
            let own = s.into_type_descriptor();
            return about(own.get_type(), m(), &[" a tuple struct"], 10);
        }
        _ => {}
    }
    check(s.fields_len() == 3, 1);
    let i = choose(4);
    let f = if flip() { s.field_type_at(i) } else { s.field_types().nth(i) };
    check(f.is_some() == (i < 3), 2);
    let Some(f) = f else { return };
    let (m, d): (Meta, &[&str]) = match i {
        0 => (vec![("n", n(slot(9)))], &[" one "]),
        1 => (vec![], &[]),
        _ => (vec![("m", n(slot(10))), ("n", M::S(('c').sc()))], &[" three"]),
    };
    about(f, m, d, 20);
    cover(10 + i as u32);
}
pub fn of_enum(t: Type<'_>) {
    let m = || -> Meta { vec![("n", n(slot(11)))] };
    let Some(e) = t.as_enum() else { return check(false, 0) };
    match choose(4) {
        0 => return about(t, m(), &[" an enum", ""], 10),
        1 => return about(e, m(), &[" an enum", ""], 10),
        2 => {
            let own = e.into_type_descriptor();
            return about(own.get_type(), m(), &[" an enum", ""], 10);
        }
        _ => {}
    }
    let i = choose(5);
    let name = ["A", "B", "C", "D", "E"][i];
    let (m, d): (Meta, &[&str]) = match i {
        0 => (vec![("n", n(slot(12)))], &[" a"]),
        1 => (vec![("b", n(slot(16)))], &[]),
        2 => (vec![], &[" c", " cc"]),
        3 => (vec![("d", n(slot(19)))], &[]),
        _ => (vec![], &[]),
    };
    let at = t.type_at(&KeyPath::default().variant(name));
    let v = match choose(3) {
        0 => e.variant(name),
        1 => e.variants().nth(i),
        _ => at.and_then(|x| x.as_variant()),
    };
    let Some(v) = v else { return check(false, 1) };
    match choose(4) {
        0 => return about(v, m, d, 20),
        1 => match at {
            Some(at) => return about(at, m, d, 20),
            None => return check(false, 2),
        },
        2 => match v {
            Variant::Struct(v) => return about(v, m, d, 20),
            Variant::Tuple(v) => return about(v, m, d, 20),
            Variant::Unit(v) => return about(v, m, d, 20),
        },
        _ => {}
    }
    cover(20 + i as u32);
    let j = choose(3);
    let f = match choose(3) {
        0 => v.field_type_at(j),
        1 => v.field_types().nth(j),
        _ => match v {
            Variant::Struct(v) if flip() => v.field_type(["x", "z", "y"][j]).map(VariantField::Named),
            Variant::Struct(v) => v.field_type_at(j).map(VariantField::Named),
            Variant::Tuple(v) => v.field_type_at(j).map(VariantField::Unnamed),
            Variant::Unit(_) => None,
        },
    };
    check(f.is_some() == (i < 2 && j < 2), 3);
    let Some(f) = f else { return };
    let (m, d): (Meta, &[&str]) = match (i, j) {
        (0, 0) => (vec![("n", n(slot(13)))], &[" a.x"]),
        (0, _) => (vec![("z", n(slot(15)))], &[]),
        (_, 0) => (vec![("n", n(slot(18)))], &[" b.0"]),
        _ => (vec![], &[]),
    };
    match f {
        VariantField::Named(g) if flip() => about(g, m, d, 30),
        VariantField::Unnamed(g) if flip() => about(g, m, d, 30),
        _ => about(f, m, d, 30),
    }
    cover(30 + 2 * i as u32 + j as u32);
}
pub fn of_gen(t: Type<'_>, d: &TypeDescriptor) {
    let m = || -> Meta { vec![("n", n(slot(20)))] };
    if flip() {
        about(t, m(), &[], 10);
    } else {
        about(d, m(), &[], 10);
    }
    let Some(f) = t.as_struct().and_then(|s| s.field_type("t")) else { return check(false, 1) };
    about(f, vec![("n", n(slot(21)))], &[" of any type"], 20);
    cover(40);
}
/// everything that is known of a struct's parts is still there, in a description of its own
pub fn of_all(e: &TypeDescriptor) {
    let root = e.get_type();
    match choose(3) {
        0 => of_struct(root),
        1 => match root.as_struct().and_then(|s| s.field_type("e")) {
            Some(f) => of_tuple_struct(f.get_type()),
            None => check(false, 4),
        },
        _ => match root.as_struct().and_then(|s| s.field_type("d")).and_then(|f| f.get_type().as_enum()).and_then(|o| o.variant("Some")).and_then(|v| v.field_type_at(0)) {
            Some(f) => of_enum(f.get_type()),
            None => check(false, 5),
        },
    }
}
pub fn of_opaque(d: &TypeDescriptor) {
    let m = || -> Meta { vec![("n", n(slot(22))), ("text", M::S(("t".to_owned()).sc()))] };
    let Some(o) = d.as_opaque() else { return check(false, 0) };
    match choose(4) {
        0 => about(d, m(), &[], 10),
        1 => about(d.get_type(), m(), &[], 20),
        2 => about(o, m(), &[], 30),
        _ => match d.get_type().type_at(&KeyPath::default()) {
            Some(at) => about(at, m(), &[], 40),
            None => check(false, 1),
        },
    }
    check(d.default_value() == Some(Value::from(slot(23))) && d.has_default_value(), 2);
}
