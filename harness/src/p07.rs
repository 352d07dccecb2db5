//! P07: generic values are totally ordered, and equality, order and hash agree
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use mirror_mirror::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// everything a value feeds to a hasher
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0.push(*x);
        }
    }
}
fn hashed(v: &Value) -> Vec<u8> {
    let mut r = Rec(Vec::new());
    v.hash(&mut r);
    r.0
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
/// equal content; not-a-number is equal to itself, both zeros are equal
fn same(a: &M, b: &M) -> bool {
    fn all<'a>(a: impl ExactSizeIterator<Item = &'a M>, b: impl ExactSizeIterator<Item = &'a M>) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut r = true;
        for (x, y) in a.zip(b) {
            r &= same(x, y);
        }
        r
    }
    fn named(a: &[(&'static str, M)], b: &[(&'static str, M)]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        for i in 0..a.len() {
            if !str_eq(a[i].0, b[i].0) {
                return false;
            }
        }
        all(a.iter().map(|x| &x.1), b.iter().map(|x| &x.1))
    }
    match (a, b) {
        (M::S(a), M::S(b)) => {
            a.tag == b.tag
                && match a.tag {
                    Tag::f32 => {
                        let (x, y) = (f32::from_bits(a.bits as u32), f32::from_bits(b.bits as u32));
                        x == y || (x.is_nan() && y.is_nan())
                    }
                    Tag::f64 => {
                        let (x, y) = (f64::from_bits(a.bits as u64), f64::from_bits(b.bits as u64));
                        x == y || (x.is_nan() && y.is_nan())
                    }
                    _ => a.eq(b),
                }
        }
        (M::Struct(a), M::Struct(b)) => named(a, b),
        (M::TStruct(a), M::TStruct(b)) | (M::Tuple(a), M::Tuple(b)) => all(a.iter(), b.iter()),
        (M::List(a) | M::Array(a), M::List(b) | M::Array(b)) => all(a.iter(), b.iter()),
        (M::Enum(n, k, a), M::Enum(n2, k2, b)) => str_eq(n, n2) && k == k2 && named(a, b),
        (M::Map(a), M::Map(b)) => all(a.iter().map(|x| &x.0), b.iter().map(|x| &x.0)) && all(a.iter().map(|x| &x.1), b.iter().map(|x| &x.1)),
        _ => false,
    }
}
fn laws2(a: &M, b: &M) {
    let (x, y) = (a.value(), b.value());
    let want = same(a, b);
    check((x == y) == want, 1);
    check((y == x) == want, 2);
    check((x != y) != want, 3);
    let c = x.cmp(&y);
    check((c == Ordering::Equal) == want, 4);
    check(y.cmp(&x) == c.reverse(), 5);
    check(x.partial_cmp(&y) == Some(c), 6);
    check((x < y) == (c == Ordering::Less), 7);
    if want {
        check(bytes_eq(&hashed(&x), &hashed(&y)), 8);
    }
    check(x == x && x.cmp(&x) == Ordering::Equal, 9);
    check(x.clone() == x, 10);
    cover(0);
}
fn laws3(a: &M, b: &M, c: &M) {
    let (x, y, z) = (a.value(), b.value(), c.value());
    let (xy, yz, xz) = (x.cmp(&y), y.cmp(&z), x.cmp(&z));
    if xy != Ordering::Greater && yz != Ordering::Greater {
        check(xz != Ordering::Greater, 1);
        if xy == Ordering::Less || yz == Ordering::Less {
            check(xz == Ordering::Less, 2);
        }
    }
    cover(0);
}
fn sc(t: Tag) -> M {
    M::S(Sc::sym(t))
}
/// one of a few small values of every kind
fn small() -> M {
    match choose(10) {
        0 => sc(Tag::u8),
        1 => sc(Tag::i8),
        2 => sc(Tag::f32),
        3 => M::S(ascii(1).sc()),
        4 => M::List((0..choose(2)).map(|_| sc(Tag::u8)).collect()),
        5 => M::Tuple(vec![sc(Tag::u8)]),
        6 => M::TStruct(vec![sc(Tag::u8)]),
        7 => M::Struct(vec![("a", sc(Tag::u8))]),
        8 => M::Enum("V", VK::Tuple, vec![("", sc(Tag::u8))]),
        _ => M::Map(vec![(sc(Tag::u8), sc(Tag::u8))]),
    }
}
/// within one kind
fn alike(k: usize) -> M {
    match k {
        0 => M::List((0..choose(3)).map(|_| sc(Tag::u8)).collect()),
        1 => M::Tuple((0..choose(3)).map(|_| sc(Tag::i16)).collect()),
        2 => M::TStruct((0..choose(3)).map(|_| sc(Tag::u16)).collect()),
        3 => match choose(4) {
            0 => M::Struct(vec![]),
            1 => M::Struct(vec![("a", sc(Tag::u8))]),
            2 => M::Struct(vec![("a", sc(Tag::u8)), ("b", sc(Tag::i8))]),
            _ => M::Struct(vec![("b", sc(Tag::u8))]),
        },
        4 => match choose(5) {
            0 => M::Enum("V", VK::Unit, vec![]),
            1 => M::Enum("V", VK::Tuple, vec![("", sc(Tag::u8))]),
            2 => M::Enum("V", VK::Struct, vec![("a", sc(Tag::u8))]),
            3 => M::Enum("W", VK::Tuple, vec![("", sc(Tag::u8)), ("", sc(Tag::u8))]),
            _ => M::Enum("W", VK::Unit, vec![]),
        },
        5 => match choose(3) {
            0 => M::Map(vec![]),
            1 => M::Map(vec![(sc(Tag::u8), sc(Tag::u8))]),
            _ => M::Map(vec![(sc(Tag::i8), sc(Tag::u8))]),
        },
        6 => M::List(vec![sc(Tag::f32), sc(Tag::f64)]),
        _ => M::List(vec![M::Enum("V", VK::Struct, vec![("a", M::List((0..choose(2)).map(|_| sc(Tag::u8)).collect()))])]),
    }
}
fn of(t: Tag) {
    laws2(&sc(t), &sc(t));
    laws3(&sc(t), &sc(t), &sc(t));
}
fn kinds() {
    let (a, b) = (sc(TAGS[choose(16)]), sc(TAGS[choose(16)]));
    laws2(&a, &b);
}/// larger values that differ in one place, if at all
fn spoiled<T: Sym + Typed>() {
    let a = T::sym().model();
    let mut b = a.clone();
    spoil(&mut b);
    laws2(&a, &b);
}

entries! {
    p07_long_list: spoiled::<LongList>();
    p07_long_map: spoiled::<LongMap>();
    p07_long_text: spoiled::<LongText>();
    p07_chain: spoiled::<Chain>();
    p07_usize: of(Tag::usize);
    p07_u8: of(Tag::u8);
    p07_u16: of(Tag::u16);
    p07_u32: of(Tag::u32);
    p07_u64: of(Tag::u64);
    p07_u128: of(Tag::u128);
    p07_i8: of(Tag::i8);
    p07_i16: of(Tag::i16);
    p07_i32: of(Tag::i32);
    p07_i64: of(Tag::i64);
    p07_i128: of(Tag::i128);
    p07_bool: of(Tag::bool);
    p07_char: of(Tag::char);
    p07_f32: of(Tag::f32);
    p07_f64: of(Tag::f64);
    p07_string: of(Tag::String);
    p07_kinds: kinds();
    p07_small2: laws2(&small(), &small());
    p07_small3: laws3(&small(), &small(), &small());
    p07_list: laws2(&alike(0), &alike(0));
    p07_list3: laws3(&alike(0), &alike(0), &alike(0));
    p07_tuple: laws2(&alike(1), &alike(1));
    p07_tuple_struct: laws2(&alike(2), &alike(2));
    p07_struct: laws2(&alike(3), &alike(3));
    p07_struct3: laws3(&alike(3), &alike(3), &alike(3));
    p07_enum: laws2(&alike(4), &alike(4));
    p07_enum3: laws3(&alike(4), &alike(4), &alike(4));
    p07_map: laws2(&alike(5), &alike(5));
    p07_map3: laws3(&alike(5), &alike(5), &alike(5));
    p07_floats: laws2(&alike(6), &alike(6));
    p07_nested: laws2(&alike(7), &alike(7));
}
