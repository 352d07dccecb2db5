//! P14: a map behaves like a sorted sequence of entries whose keys and values fit
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::NonZeroI8;

type E = Vec<(M, M)>;
fn find(f: &E, k: &M) -> Option<usize> {
    f.iter().position(|x| x.0.eq(k))
}
/// typed keys are in the order of their parts, a shorter list before the longer ones it begins
fn less(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::S(a), M::S(b)) => a.less(b),
        (M::List(x), M::List(y)) | (M::Array(x), M::Array(y)) | (M::Tuple(x), M::Tuple(y)) | (M::TStruct(x), M::TStruct(y)) => {
            for i in 0..x.len().min(y.len()) {
                if !x[i].eq(&y[i]) {
                    return less(&x[i], &y[i]);
                }
            }
            x.len() < y.len()
        }
        // the variants in use are declared in the order of their names
        (M::Enum(n, _, x), M::Enum(o, _, y)) => {
            if !str_eq(n, o) {
                return n < o;
            }
            for i in 0..x.len() {
                if !x[i].1.eq(&y[i].1) {
                    return less(&x[i].1, &y[i].1);
                }
            }
            false
        }
        _ => unreachable!(),
    }
}
fn insert(f: &mut E, k: M, v: M) -> Option<M> {
    match find(f, &k) {
        Some(i) => Some(std::mem::replace(&mut f[i].1, v)),
        None => {
            let i = f
                .iter()
                .position(|x| less(&k, &x.0))
                .unwrap_or(f.len());
            f.insert(i, (k, v));
            None
        }
    }
}
fn out(x: Option<Box<dyn Reflect>>, want: Option<M>, id: u32) {
    match (x, want) {
        (Some(x), Some(m)) => check(agrees(&*x, &m), id),
        (None, None) => {}
        _ => check(false, id + 1),
    }
}
/// a key or value as it's given to the map, and as it should be seen there
struct Arg(Box<dyn Reflect>, Option<M>);
fn arg<T: Sym + Typed + FromReflect>(generic: bool) -> Arg {
    match choose(3) {
        0 => {
            let x = T::sym();
            let m = x.model();
            Arg(Box::new(x), Some(m))
        }
        1 => {
            let m = T::sym().model();
            Arg(Box::new(m.value()), Some(m))
        }
        _ => {
            let mut b = 1;
            let m = near(&T::ty(), &mut b);
            let mut want = fit(&T::ty(), &m);
            if generic {
                // kept as it is; keys of one kind are what has an obvious order
                assume(want.is_some());
                want = Some(m.clone());
            }
            Arg(Box::new(m.value()), want)
        }
    }
}
fn step<A: Sym + Typed + FromReflect, B: Sym + Typed + FromReflect>(l: &mut dyn Map, f: &mut E, generic: bool) {
    let k = arg::<A>(generic);
    let at = k.1.as_ref().and_then(|k| find(f, k));
    match choose(4) {
        0 => {
            let v = arg::<B>(generic);
            let old = l.insert(&*k.0, &*v.0);
            match (k.1, v.1) {
                (Some(k), Some(v)) => out(old, insert(f, k, v), 1),
                _ => check(old.is_none(), 3),
            }
        }
        1 => out(l.remove(&*k.0), at.map(|i| f.remove(i).1), 4),
        2 => match (l.get(&*k.0), at) {
            (Some(x), Some(i)) => check(agrees(x, &f[i].1), 6),
            (None, None) => {}
            _ => check(false, 7),
        },
        _ => match (l.get_mut(&*k.0), at) {
            (Some(x), Some(i)) => {
                check(agrees(x, &f[i].1), 8);
                poke(x);
                f[i].1 = f[i].1.poked();
            }
            (None, None) => {}
            _ => check(false, 9),
        },
    }
    check(agrees(l.as_reflect(), &M::Map(f.clone())), 10);
    check(l.len() == f.len() && l.is_empty() == f.is_empty(), 11);
}
fn entries(m: M) -> E {
    match m {
        M::Map(f) => f,
        _ => unreachable!(),
    }
}
fn typed<A: Sym + Typed + FromReflect + DescribeType + Ord, B: Sym + Typed + FromReflect + DescribeType>() {
    let mut x: BTreeMap<A, B> = Sym::sym();
    let mut f = entries(x.model());
    for _ in 0..param(6, 1) {
        step::<A, B>(&mut x, &mut f, false);
    }
    check(x.model().eq(&M::Map(f)), 12);
    cover(0);
}
fn generic<A: Sym + Typed + FromReflect + DescribeType + Ord, B: Sym + Typed + FromReflect + DescribeType>() {
    let x: BTreeMap<A, B> = Sym::sym();
    let mut f = entries(x.model());
    let mut v = x.to_value();
    match v.as_map_mut() {
        Some(l) => {
            for _ in 0..param(6, 1) {
                step::<A, B>(l, &mut f, true);
            }
        }
        None => check(false, 13),
    }
    check(agrees(&v, &M::Map(f)), 14);
    cover(0);
}
/// more entries
fn longer() {
    let mut x = LongMap::sym().0;
    let mut f = entries(x.model());
    let n = f.len() as u16;
    let mut v = x.to_value();
    let l: &mut dyn Map = if flip() {
        match v.as_map_mut() {
            Some(l) => l,
            None => return check(false, 20),
        }
    } else {
        &mut x
    };
    let k: u16 = [0, 3 * (n / 2), 3 * n - 3, 3 * n, 4][choose(5)];
    let at = find(&f, &k.model());
    match choose(3) {
        0 => {
            let v: u8 = Sym::sym();
            out(l.insert(&k, &v), insert(&mut f, k.model(), v.model()), 21);
        }
        1 => out(l.remove(&k), at.map(|i| f.remove(i).1), 23),
        _ => match (l.get_mut(&k), at) {
            (Some(x), Some(i)) => {
                poke(x);
                f[i].1 = f[i].1.poked();
            }
            (None, None) => {}
            _ => check(false, 25),
        },
    }
    check(l.len() == f.len() && l.iter().count() == f.len() && l.iter_mut().count() == f.len(), 26);
    check(agrees(l.as_reflect(), &M::Map(f)), 27);
    cover(0);
}

entries! {
    p14_longer: longer();
    p14_u8: typed::<u8, u16>();
    p14_i16: typed::<i16, u8>();
    p14_bool: typed::<bool, Small>();
    p14_char: typed::<char, u8>();
    p14_string: typed::<String, u8>();
    p14_nz: typed::<NonZeroI8, u8>();
    p14_u128: typed::<u128, Pair>();
    p14_i128: typed::<i128, bool>();
    p14_list: typed::<u8, Vec<u8>>();
    p14_k_array: typed::<[u8; 2], u8>();
    p14_k_tuple: typed::<(u8, bool), u8>();
    p14_k_list: typed::<Vec<u8>, u8>();
    p14_k_option: typed::<Option<u8>, u8>();
    p14_k_boxed: typed::<Box<u8>, u8>();
    p14_f32: typed::<u8, f32>();
    p14_g_f32: generic::<u8, f32>();
    p14_g_u8: generic::<u8, u16>();
    p14_g_i64: generic::<i64, Small>();
    p14_g_string: generic::<String, u8>();
}
