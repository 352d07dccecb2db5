//! P20: a generic value, path or type description survives binary serialization
use crate::model::*;
use crate::notes::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::TypeDescriptor;
use mirror_mirror::*;
use speedy::{BigEndian, LittleEndian, Readable, Writable};
use std::collections::BTreeMap;

fn bin<T, C>(x: &T) -> Option<T>
where
    C: speedy::Context + Default,
    T: Writable<C> + for<'a> Readable<'a, C>,
    C::Error: Into<speedy::Error>,
{
    let b = x.write_to_vec_with_ctx(C::default()).ok()?;
    T::read_from_buffer_copying_data_with_ctx(C::default(), &b).ok()
}
fn trip<T>(x: &T) -> Option<T>
where
    T: Writable<LittleEndian> + for<'a> Readable<'a, LittleEndian> + Writable<BigEndian> + for<'a> Readable<'a, BigEndian>,
{
    if flip() {
        bin::<T, LittleEndian>(x)
    } else {
        bin::<T, BigEndian>(x)
    }
}
fn value<T: Sym + Typed + FromReflect>() {
    let x = T::sym();
    let m = x.model();
    match trip(&x.to_value()) {
        Some(v) => {
            check(agrees(&v, &m), 1);
            check(T::from_reflect(&v).map_or(false, |y| y.model().eq(&m)), 2);
        }
        None => check(false, 3),
    }
    cover(0);
}
fn scalar() {
    let s = Sc::sym(TAGS[choose(16)]);
    match trip(&s.value()) {
        Some(v) => check(agrees(&v, &M::S(s)), 1),
        None => check(false, 2),
    }
    cover(0);
}
/// keys of any kind
fn map() {
    let (a, b) = (Sc::sym(TAGS[choose(16)]), Sc::sym(TAGS[choose(16)]));
    let mut f = BTreeMap::new();
    f.insert(a.value(), Value::from(1u8));
    f.insert(b.value(), Value::from(2u8));
    let v = Value::Map(f);
    check(trip(&v).map_or(false, |w| w == v), 1);
    cover(0);
}
fn path() {
    let n = choose(3);
    let p: KeyPath = (0..n)
        .map(|_| match choose(4) {
            0 => Key::named_field(ascii(1)),
            1 => Key::numbered_field(Sym::sym()),
            2 => Key::get(Sc::sym([Tag::u8, Tag::i128, Tag::String, Tag::bool][choose(4)]).value()),
            _ => Key::variant(ascii(1)),
        })
        .collect();
    check(trip(&p).map_or(false, |q| q == p && q.len() == n), 1);
    cover(0);
}
/// a description still describes the type, and its values
fn described<T: Sym + Typed + FromReflect + DescribeType>() {
    let d = <T as DescribeType>::type_descriptor().into_owned();
    match trip(&d) {
        Some(e) => {
            check(e == d, 1);
            check(str_eq(e.type_name(), T::ty().name), 2);
            check(e.default_value() == d.default_value(), 3);
            let x = T::sym();
            check(mirror_mirror::try_visit::try_visit(&mut Quiet, &x, e.get_type()).is_ok(), 4);
        }
        None => check(false, 5),
    }
    cover(0);
}
struct Quiet;
impl mirror_mirror::try_visit::TryVisit for Quiet {
    type Error = ();
}

/// with metadata and documentation
fn annotated<T: DescribeType>(of: fn(&TypeDescriptor)) {
    fill();
    let d = <T as DescribeType>::type_descriptor().into_owned();
    match trip(&d) {
        Some(e) => {
            check(e == d, 100);
            of(&e);
        }
        None => check(false, 101),
    }
    cover(0);
}

entries! {
    p20_long_list: value::<LongList>();
    p20_long_map: value::<LongMap>();
    p20_long_text: value::<LongText>();
    p20_chain: value::<Chain>();
    p20_scalar: scalar();
    p20_map: map();
    p20_path: path();
    p20_named: value::<Named>();
    p20_triple: value::<Triple>();
    p20_unit: value::<Unit>();
    p20_shape: value::<Shape>();
    p20_deep: value::<Deep>();
    p20_tree: value::<Tree>();
    p20_expr: value::<Expr>();
    p20_listed: value::<Listed>();
    p20_map_str: value::<BTreeMap<String, Vec<u8>>>();
    p20_nz: value::<(std::num::NonZeroU8, std::num::NonZeroI128)>();
    p20_range: value::<std::ops::Range<u32>>();
    p20_result: value::<Result<Pair, String>>();
    p20_d_named: described::<Named>();
    p20_d_shape: described::<Shape>();
    p20_d_deep: described::<Deep>();
    p20_d_tree: described::<Tree>();
    p20_d_nz: described::<(std::num::NonZeroU8, bool)>();
    p20_d_notes: annotated::<MStruct>(of_all);
    p20_d_opaque: annotated::<MOpaque>(of_opaque);
}
