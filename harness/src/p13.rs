//! P13: a list behaves like a sequence of the values that fit its elements
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::num::NonZeroU8;

fn out(x: Option<Box<dyn Reflect>>, want: Option<M>, id: u32) {
    match (x, want) {
        (Some(x), Some(m)) => check(agrees(&*x, &m), id),
        (None, None) => {}
        _ => check(false, id + 1),
    }
}
/// remove the element at a (symbolic) index
fn take(f: &mut Vec<M>, i: usize) -> Option<M> {
    for k in 0..f.len() {
        if k == i {
            return Some(f.remove(k));
        }
    }
    None
}
/// `push` makes what is pushed, as it should come out
fn step(l: &mut dyn List, f: &mut Vec<M>, pokes: bool, push: &dyn Fn(&mut dyn List) -> Option<M>) {
    match choose(4) {
        0 => {
            if let Some(m) = push(l) {
                f.push(m);
            }
        }
        1 => out(l.pop(), f.pop(), 1),
        2 => {
            let i: usize = Sym::sym();
            out(l.try_remove(i), take(f, i), 3);
        }
        _ => {
            let i: usize = Sym::sym();
            match (l.get_mut(i), (0..f.len()).find(|k| *k == i)) {
                (Some(x), Some(i)) => {
                    check(agrees(x, &f[i]), 5);
                    if pokes {
                        poke(x);
                        f[i] = f[i].poked();
                    }
                }
                (None, None) => {}
                _ => check(false, 6),
            }
        }
    }
    check(agrees(l.as_reflect(), &M::List(f.clone())), 7);
    check(l.len() == f.len() && l.is_empty() == f.is_empty(), 8);
}
fn elems(m: M) -> Vec<M> {
    match m {
        M::List(f) => f,
        _ => unreachable!(),
    }
}
fn typed<T: Sym + Typed + FromReflect + DescribeType>(pokes: bool) {
    let mut x: Vec<T> = Sym::sym();
    let mut f = elems(x.model());
    for _ in 0..param(6, 2) {
        step(&mut x, &mut f, pokes, &|l| match choose(2) {
            0 => {
                let y = T::sym();
                l.push(&y);
                Some(y.model())
            }
            _ => {
                // a generic value, which may not fit
                let mut b = param(4, 1);
                let m = near(&T::ty(), &mut b);
                l.push(&m.value());
                fit(&T::ty(), &m)
            }
        });
    }
    check(x.model().eq(&M::List(f)), 9);
    cover(0);
}
/// a generic list takes anything
fn generic<T: Sym + Typed + FromReflect + DescribeType>() {
    let m: Vec<T> = Sym::sym();
    let mut f = elems(m.model());
    let mut v = m.to_value();
    match v.as_list_mut() {
        Some(l) => {
            for _ in 0..param(6, 2) {
                step(l, &mut f, true, &|l| match choose(3) {
                    0 => {
                        let y = T::sym();
                        l.push(&y);
                        Some(y.model())
                    }
                    1 => {
                        let y = T::sym().model();
                        l.push(&y.value());
                        Some(y)
                    }
                    _ => {
                        let y = Small::sym();
                        l.push(&y);
                        Some(y.model())
                    }
                });
            }
        }
        None => check(false, 10),
    }
    check(agrees(&v, &M::List(f)), 11);
    cover(0);
}
/// longer lists, one removal
fn long() {
    let n = choose(param(7, 7) as usize);
    let mut x: Vec<u8> = (0..n).map(|_| Sym::sym()).collect();
    let mut f = elems(x.model());
    let generic = flip();
    let mut v = x.to_value();
    let l: &mut dyn List = if generic {
        match v.as_list_mut() {
            Some(l) => l,
            None => return check(false, 12),
        }
    } else {
        &mut x
    };
    if flip() {
        let i: usize = Sym::sym();
        out(l.try_remove(i), take(&mut f, i), 13);
    } else {
        out(l.pop(), f.pop(), 15);
    }
    check(agrees(l.as_reflect(), &M::List(f)), 17);
    cover(0);
}
/// much longer lists
fn longer() {
    let n = [16, 32, 64, 256, 257][choose(5)];
    let mut x = numbers(n);
    let mut f = elems(x.model());
    let mut v = x.to_value();
    let l: &mut dyn List = if flip() {
        match v.as_list_mut() {
            Some(l) => l,
            None => return check(false, 18),
        }
    } else {
        &mut x
    };
    match choose(4) {
        0 => {
            let i = [0, 1, n / 2, n - 1, n, n + 256][choose(6)];
            out(l.try_remove(i), take(&mut f, i), 19);
        }
        1 => out(l.pop(), f.pop(), 21),
        2 => {
            let y: u16 = Sym::sym();
            l.push(&y);
            f.push(y.model());
        }
        _ => {
            let i = [0, 1, n / 2, n - 1, n, n + 256][choose(6)];
            match (l.get_mut(i), i < n) {
                (Some(x), true) => {
                    check(agrees(x, &f[i]), 23);
                    poke(x);
                    f[i] = f[i].poked();
                }
                (None, false) => {}
                _ => check(false, 24),
            }
        }
    }
    check(l.len() == f.len() && l.iter().count() == f.len() && l.iter_mut().count() == f.len(), 25);
    check(agrees(l.as_reflect(), &M::List(f)), 26);
    cover(0);
}

entries! {
    p13_longer: longer();
    p13_u8: typed::<u8>(true);
    p13_string: typed::<String>(true);
    p13_option: typed::<Option<u16>>(true);
    p13_small: typed::<Small>(true);
    p13_pair: typed::<Pair>(true);
    p13_nz: typed::<(NonZeroU8, u8)>(false);
    p13_named: typed::<(Named,)>(true);
    p13_list: typed::<Vec<u8>>(true);
    p13_g_u8: generic::<u8>();
    p13_g_small: generic::<Small>();
    p13_g_string: generic::<String>();
    p13_long: long();
}
