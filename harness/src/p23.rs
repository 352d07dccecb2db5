//! P23: metadata and documentation of types, fields and variants is found where it was written, complete, and nowhere else
use crate::notes::*;
use crate::sx::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::*;
use std::collections::BTreeMap;

/// the metadata of a type is the same wherever the type is
fn inside() {
    fill();
    let d = <MStruct as DescribeType>::type_descriptor();
    let root = d.get_type();
    match choose(4) {
        0 => of_struct(root),
        1 => match root.as_struct().and_then(|s| s.field_type("e")) {
            Some(f) => of_tuple_struct(f.get_type()),
            None => check(false, 4),
        },
        2 => match root.as_struct().and_then(|s| s.field_type("d")).and_then(|f| f.get_type().as_enum()).and_then(|o| o.variant("Some")).and_then(|v| v.field_type_at(0)) {
            Some(f) => of_enum(f.get_type()),
            None => check(false, 5),
        },
        _ => {
            // a path gives what is known about the type, as well
            let p = [KeyPath::default().field("e"), KeyPath::default().field("d").variant("Some").field(0), KeyPath::default().field("c"), KeyPath::default()];
            let i = choose(4);
            let Some(at) = root.type_at(&p[i]) else { return check(false, 6) };
            match i {
                0 => about(at, vec![("n", n(slot(7)))], &[" a tuple struct"], 40),
                1 => about(at, vec![("n", n(slot(11)))], &[" an enum", ""], 40),
                2 => about(at, vec![], &[], 40),
                _ => check(at.docs().len() == 4 && at.get_meta::<u8>("n") == Some(slot(0)), 46),
            }
        }
    }
    cover(41);
}
/// owned descriptions keep it
fn owned() {
    fill();
    let d = <MStruct as DescribeType>::type_descriptor().into_owned();
    let Some(s) = d.as_struct() else { return check(false, 0) };
    let Some(e) = s.field_type("e") else { return check(false, 1) };
    match choose(3) {
        0 => of_struct(d.get_type()),
        1 => of_tuple_struct(e.get_type().into_type_descriptor().get_type()),
        _ => {
            let d = <Vec<MEnum> as DescribeType>::type_descriptor();
            let Some(l) = d.as_list() else { return check(false, 2) };
            of_enum(l.element_type())
        }
    }
}
fn unit() {
    fill();
    let d = <MUnit as DescribeType>::type_descriptor();
    about(&*d, vec![], &[" no metadata"], 10);
    about(d.get_type(), vec![], &[" no metadata"], 20);
    match d.get_type().type_at(&KeyPath::default()) {
        Some(at) => about(at, vec![], &[" no metadata"], 30),
        None => check(false, 0),
    }
    cover(0);
}
fn gen() {
    fill();
    let d = <MGen<MUnit> as DescribeType>::type_descriptor();
    of_gen(d.get_type(), &d);
    cover(0);
}
fn opaque() {
    fill();
    let d = <MOpaque as DescribeType>::type_descriptor();
    of_opaque(&d);
    cover(0);
}
/// types without any
fn none() {
    fill();
    let k = ascii(1);
    let d: std::borrow::Cow<'static, TypeDescriptor> = match choose(5) {
        0 => <(u8, MStruct) as DescribeType>::type_descriptor(),
        1 => <Vec<MStruct> as DescribeType>::type_descriptor(),
        2 => <[MStruct; 2] as DescribeType>::type_descriptor(),
        3 => <BTreeMap<u8, MStruct> as DescribeType>::type_descriptor(),
        _ => <u8 as DescribeType>::type_descriptor(),
    };
    check(d.meta(&k).is_none() && d.docs().is_empty(), 1);
    let t = d.get_type();
    check(t.meta(&k).is_none() && t.docs().is_empty(), 2);
    match t.type_at(&KeyPath::default()) {
        Some(a) => check(a.meta(&k).is_none() && a.docs().is_empty(), 3),
        None => check(false, 4),
    }
    cover(0);
}

entries! {
    p23_inside: inside();
    p23_owned: owned();
    p23_unit: unit();
    p23_gen: gen();
    p23_opaque: opaque();
    p23_none: none();
}
