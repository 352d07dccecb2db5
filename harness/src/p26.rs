//! P26: the description of a type is the same whoever asks for it, and whenever
use crate::model::str_eq;
use crate::sx::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::borrow::Cow;
use std::sync::atomic::{AtomicU8, Ordering};

type D = Cow<'static, TypeDescriptor>;
type Job<T> = Box<dyn FnOnce() -> T + Send>;

static mut FROM: u8 = 0;
static COUNT: AtomicU8 = AtomicU8::new(0);
/// another number every time
fn next() -> u8 {
    unsafe { FROM }.wrapping_add(COUNT.fetch_add(1, Ordering::SeqCst))
}
fn start() {
    unsafe { FROM = any_u8() }
}

#[derive(Reflect, Clone, Debug, Default)]
pub struct A {
    a: u8,
}
#[derive(Reflect, Clone, Debug, Default)]
pub struct B {
    b: bool,
}
/// asks for a number when it's described
#[derive(Reflect, Clone, Debug, Default)]
#[reflect(meta(n = next()))]
pub struct N {
    n: u8,
}
/// asks for another description when it's described
#[derive(Reflect, Clone, Debug, Default)]
#[reflect(meta(first = <A as DescribeType>::type_descriptor().as_struct().map_or(0, |s| s.fields_len() as u8)))]
pub struct O {
    #[reflect(meta(b = <B as DescribeType>::type_descriptor().get_type().as_struct().map_or(0, |s| s.fields_len() as u8)))]
    o: u8,
}
/// and that one for a third
#[derive(Reflect, Clone, Debug, Default)]
#[reflect(meta(o = described(&<O as DescribeType>::type_descriptor(), "o")))]
pub struct P {
    p: O,
}

/// of a struct with this one field
fn described(d: &D, field: &str) -> bool {
    d.as_struct().map_or(false, |s| s.fields_len() == 1 && s.field_type_at(0).map_or(false, |f| str_eq(f.name(), field)))
}
fn of<T: DescribeType>() -> D {
    <T as DescribeType>::type_descriptor()
}

/// two ask for the same for the first time
fn same() {
    let f = || -> Job<D> { Box::new(of::<A>) };
    let l = at_once(vec![f(), f()]);
    check(l.iter().all(|d| described(d, "a")), 1);
    check(l[0] == l[1] && l[0] == of::<A>(), 2);
    still();
    cover(0);
}
/// two ask for different ones
fn two() {
    let l = at_once(vec![Box::new(of::<A>) as Job<D>, Box::new(of::<B>)]);
    check(described(&l[0], "a"), 1);
    check(described(&l[1], "b"), 2);
    check(l[0] == of::<A>() && l[1] == of::<B>(), 3);
    still();
    cover(0);
}
/// each asks for both
fn crossed() {
    let l = at_once(vec![
        Box::new(|| (of::<A>(), of::<B>())) as Job<(D, D)>,
        Box::new(|| {
            let b = of::<B>();
            (of::<A>(), b)
        }),
    ]);
    for (a, b) in &l {
        check(described(a, "a"), 1);
        check(described(b, "b"), 2);
    }
    check(l[0] == l[1], 3);
    still();
    cover(0);
}
fn three() {
    let l = at_once(vec![Box::new(of::<A>) as Job<D>, Box::new(of::<B>), Box::new(of::<A>)]);
    check(described(&l[0], "a") && described(&l[2], "a"), 1);
    check(described(&l[1], "b"), 2);
    check(l[0] == l[2], 3);
    still();
    cover(0);
}
/// one is known already
fn known() {
    let a = of::<A>();
    let l = at_once(vec![
        Box::new(|| vec![of::<A>(), of::<B>()]) as Job<Vec<D>>,
        Box::new(|| vec![of::<A>(), of::<A>(), of::<B>()]),
    ]);
    check(l[0][0] == a && l[1][0] == a && l[1][1] == a, 1);
    check(described(&a, "a") && described(&l[0][1], "b") && described(&l[1][2], "b"), 2);
    still();
    cover(0);
}
/// whatever happened before, and whoever asked
fn still() {
    check(described(&of::<A>(), "a"), 20);
    check(described(&of::<B>(), "b"), 21);
    check(described(&of::<A>(), "a"), 22);
}
/// both are known already, the last one asked for is `A`
fn both_known() {
    let b = of::<B>();
    let a = of::<A>();
    let l = at_once(vec![Box::new(|| vec![of::<A>(), of::<A>()]) as Job<Vec<D>>, Box::new(|| vec![of::<B>(), of::<B>()])]);
    check(described(&l[0][0], "a") && described(&l[0][1], "a"), 1);
    check(described(&l[1][0], "b") && described(&l[1][1], "b"), 2);
    check(l[0][0] == a && l[1][1] == b, 3);
    still();
    cover(0);
}
/// by turns
fn turns() {
    of::<B>();
    of::<A>();
    of::<Vec<A>>();
    let l = at_once(vec![Box::new(|| vec![of::<A>(), of::<B>(), of::<A>()]) as Job<Vec<D>>, Box::new(|| vec![of::<B>(), of::<A>(), of::<B>()])]);
    check(described(&l[0][0], "a") && described(&l[0][1], "b") && described(&l[0][2], "a"), 1);
    check(described(&l[1][0], "b") && described(&l[1][1], "a") && described(&l[1][2], "b"), 2);
    still();
    cover(0);
}
/// everyone sees the same, and always
fn number() {
    start();
    let f = || -> Job<(Option<u8>, Option<u8>)> { Box::new(|| (of::<N>().get_meta("n"), of::<N>().get_meta("n"))) };
    let l = at_once(vec![f(), f()]);
    let n: Option<u8> = of::<N>().get_meta("n");
    check(n.is_some(), 1);
    check(<[_]>::iter(&l).all(|x| x.0 == n && x.1 == n), 2);
    cover(0);
}
/// the parts of other types
fn parts() {
    let l = at_once(vec![Box::new(of::<Vec<A>>) as Job<D>, Box::new(of::<Vec<B>>)]);
    let part = |d: &D, n: &str| d.as_list().map_or(false, |l| described(&Cow::Owned(l.element_type().into_type_descriptor().into_owned()), n));
    check(part(&l[0], "a"), 1);
    check(part(&l[1], "b"), 2);
    cover(0);
}
/// describing a type takes the description of another
fn nested() {
    let d = of::<O>();
    check(described(&d, "o") && d.get_meta::<u8>("first") == Some(1), 1);
    let Some(f) = d.as_struct().and_then(|s| s.field_type_at(0)) else { return check(false, 2) };
    check(f.get_meta::<u8>("b") == Some(1), 3);
    let p = of::<P>();
    check(described(&p, "p") && p.get_meta::<bool>("o") == Some(true), 4);
    check(of::<O>() == d && described(&of::<A>(), "a"), 5);
    cover(0);
}
fn nested_twice() {
    let l = at_once(vec![Box::new(|| vec![of::<O>()]) as Job<Vec<D>>, Box::new(|| vec![of::<A>(), of::<O>()])]);
    check(described(&l[0][0], "o") && described(&l[1][0], "a") && l[0][0] == l[1][1], 1);
    check(l[0][0].get_meta::<u8>("first") == Some(1), 2);
    cover(0);
}

entries! {
    p26_same: same();
    p26_two: two();
    p26_crossed: crossed();
    p26_three: three();
    p26_known: known();
    p26_both_known: both_known();
    p26_turns: turns();
    p26_number: number();
    p26_parts: parts();
    p26_nested: nested();
    p26_nested_twice: nested_twice();
}
