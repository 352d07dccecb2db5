//! P25: a field with a conversion of its own is read by it, and by nothing else; the other fields are read as always
use crate::sx::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// numbers only, and not this one
fn turned(v: &dyn Reflect) -> Option<u8> {
    let x = u8::from_reflect(v)?;
    if x == 7 {
        None
    } else {
        Some(x ^ 0x80)
    }
}
/// a number is another number here, and a list its length
fn counted(v: &dyn Reflect) -> Option<u8> {
    match v.as_list() {
        Some(l) => Some(l.len() as u8),
        None => u8::from_reflect(v).map(|x| x.wrapping_add(3)),
    }
}
fn plain(v: &dyn Reflect) -> Option<u8> {
    v.as_scalar().and_then(|s| match s {
        ScalarRef::u8(x) => Some(x),
        _ => None,
    })
}

macro_rules! types {
    ($($n:ident $t:ident $e:ident $(#[$m:meta])* $(impl $c:ident)?;)*) => { $(
        #[derive(Reflect, Debug)]
        $(#[$m])* $(#[derive($c)])?
        pub struct $n {
            a: u8,
            #[reflect(from_reflect_with(turned))]
            b: u8,
            #[reflect(from_reflect_with(counted))]
            c: u8,
            #[reflect(skip)]
            s: u8,
            d: u8,
        }
        #[derive(Reflect, Debug)]
        $(#[$m])* $(#[derive($c)])?
        pub struct $t(u8, #[reflect(skip)] u8, #[reflect(from_reflect_with(turned))] u8, #[reflect(from_reflect_with(counted))] u8, u8);
        #[derive(Reflect, Debug)]
        $(#[$m])* $(#[derive($c)])?
        pub enum $e {
            T(#[reflect(from_reflect_with(counted))] u8, u8, #[reflect(skip)] u8, #[reflect(from_reflect_with(turned))] u8),
            S {
                #[reflect(skip)]
                s: u8,
                a: u8,
                #[reflect(from_reflect_with(turned))]
                b: u8,
                #[reflect(from_reflect_with(counted))]
                c: u8,
            },
            U(u8, u8),
        }
        impl With for $n {
            fn of(f: &[u8; 4]) -> Self { $n { a: f[0], b: f[1], c: f[2], s: 9, d: f[3] } }
            fn is(&self, f: &[u8; 4]) -> bool {
                (self.a == f[0]) & (self.b == f[1]) & (self.c == f[2]) & (self.d == f[3]) & (self.s == 0)
            }
            fn holds(&self, f: &[u8; 4]) -> bool {
                (self.a == f[0]) & (self.b == f[1]) & (self.c == f[2]) & (self.d == f[3])
            }
            fn shape(f: [Option<Value>; 4]) -> Value {
                let mut v = StructValue::new();
                for (n, f) in ["a", "b", "c", "d"].into_iter().zip(f) {
                    if let Some(f) = f {
                        v.set_field(n, f);
                    }
                }
                v.into()
            }
            const OWN: [usize; 4] = [0, 1, 2, 0];
        }
        impl With for $t {
            fn of(f: &[u8; 4]) -> Self { $t(f[0], 9, f[1], f[2], f[3]) }
            fn is(&self, f: &[u8; 4]) -> bool {
                (self.0 == f[0]) & (self.2 == f[1]) & (self.3 == f[2]) & (self.4 == f[3]) & (self.1 == 0)
            }
            fn holds(&self, f: &[u8; 4]) -> bool {
                (self.0 == f[0]) & (self.2 == f[1]) & (self.3 == f[2]) & (self.4 == f[3])
            }
            fn shape(f: [Option<Value>; 4]) -> Value {
                let mut v = TupleStructValue::new();
                let mut whole = true;
                for f in f {
                    match f {
                        Some(f) if whole => v.push_field(f),
                        _ => whole = false,
                    }
                }
                v.into()
            }
            const OWN: [usize; 4] = [0, 1, 2, 0];
        }
    )* };
}
types! {
    W WT WE impl Clone;
    X XT XE #[reflect(opt_out(Clone))];
}
trait With: Reflect + FromReflect {
    fn of(f: &[u8; 4]) -> Self;
    fn is(&self, f: &[u8; 4]) -> bool;
    /// the fields it shows
    fn holds(&self, f: &[u8; 4]) -> bool;
    /// the fields as a generic value
    fn shape(f: [Option<Value>; 4]) -> Value;
    /// which conversion each field has
    const OWN: [usize; 4];
}
fn conv(how: usize, v: &dyn Reflect) -> Option<u8> {
    match how {
        0 => plain(v),
        1 => plain(v).filter(|x| *x != 7).map(|x| x ^ 0x80),
        _ => match v.as_list() {
            Some(l) => Some(l.len() as u8),
            None => plain(v).map(|x| x.wrapping_add(3)),
        },
    }
}
/// the fields as they are to be read, none if one isn't
fn wanted(f: &[Value], own: &[usize]) -> Option<Vec<u8>> {
    f.iter().zip(own).map(|(f, h)| conv(*h, f.as_reflect())).collect()
}
fn judged<T: With>(got: Option<T>, want: Option<Vec<u8>>, id: u32) {
    match (got, want) {
        (Some(g), Some(w)) => {
            check(g.is(&[w[0], w[1], w[2], w[3]]), id);
            cover(1)
        }
        (None, None) => cover(2),
        _ => check(false, id + 1),
    }
    cover(0);
}
fn four() -> [u8; 4] {
    [any_u8(), any_u8(), any_u8(), any_u8()]
}
/// from a value of the type
fn typed<T: With>() {
    let f = four();
    let x = T::of(&f);
    let v: Vec<Value> = f.into_iter().map(Value::from).collect();
    let want = wanted(&v, &T::OWN);
    if flip() {
        judged(T::from_reflect(&x), want, 1)
    } else {
        judged(T::from_reflect(&x.to_value()), want, 3)
    }
}
/// a copy is no conversion: it has the content of the original, also where the conversion would refuse it
fn copied<T: With>(refused: bool) {
    let f = four();
    assume((f[1] == 7) == refused);
    let x = T::of(&f);
    let c = x.clone_reflect();
    match c.downcast_ref::<T>() {
        Some(c) => check(c.holds(&f), 1),
        None => check(false, 2),
    }
    cover(0);
}
/// a copy of what contains it
fn copied_in<C: Reflect + FromReflect>(put: fn(W) -> C, get: fn(&C) -> Option<&W>, refused: bool) {
    let f = four();
    assume((f[1] == 7) == refused);
    let c = put(W::of(&f)).clone_reflect();
    match c.downcast_ref::<C>().and_then(get) {
        Some(c) => check(c.holds(&f), 1),
        None => check(false, 2),
    }
    cover(0);
}
fn in_list(refused: bool) {
    copied_in::<Vec<W>>(|w| vec![w], |c| c.first(), refused)
}
fn in_array(refused: bool) {
    copied_in::<[W; 1]>(|w| [w], |c| c.first(), refused)
}
fn in_map(refused: bool) {
    copied_in::<BTreeMap<u8, W>>(|w| BTreeMap::from([(3, w)]), |c| c.get(&3), refused)
}
fn in_option(refused: bool) {
    copied_in::<Option<W>>(Some, |c| c.as_ref(), refused)
}
fn in_tuple(refused: bool) {
    copied_in::<(bool, W)>(|w| (true, w), |c| Some(&c.1), refused)
}
fn in_result(refused: bool) {
    copied_in::<Result<W, u8>>(Ok, |c| c.as_ref().ok(), refused)
}
fn in_range(refused: bool) {
    copied_in::<std::ops::Range<W>>(|w| w..W::of(&[0; 4]), |c| Some(&c.start), refused)
}
fn piece() -> Value {
    match choose(4) {
        0 => Value::from(any_u8()),
        1 => Value::from(flip()),
        2 => Value::List((0..choose(3)).map(|_| Value::from(any_u8())).collect()),
        _ => Value::from(300u16),
    }
}
/// from a generic value whose fields may be of another kind, or missing
fn shaped<T: With>() {
    let (i, j) = (choose(4), choose(4));
    let mut f: Vec<Value> = four().into_iter().map(Value::from).collect();
    f[i] = piece();
    f[j] = piece();
    let want = wanted(&f, &T::OWN);
    let gone = choose(5);
    let mut n = 0;
    let v = T::shape([0; 4].map(|_: i32| {
        n += 1;
        if n - 1 == gone {
            None
        } else {
            Some(f[n - 1].clone())
        }
    }));
    judged(T::from_reflect(&v), if gone < 4 { None } else { want }, 1);
}
macro_rules! enums {
    ($($f:ident $g:ident $e:ident;)*) => { $(
        fn $f() {
            let f = four();
            let (x, own) = match choose(3) {
                0 => ($e::T(f[0], f[1], 9, f[2]), [2, 0, 1]),
                1 => ($e::S { s: 9, a: f[0], b: f[1], c: f[2] }, [0, 1, 2]),
                _ => ($e::U(f[0], f[1]), [0, 0, 0]),
            };
            let v: Vec<Value> = f[..3].iter().map(|x: &u8| Value::from(*x)).collect();
            let want = wanted(&v, &own);
            let got = if flip() { $e::from_reflect(&x) } else { $e::from_reflect(&x.to_value()) };
            match (got, want) {
                (Some($e::T(a, b, s, c)), Some(w)) => check(matches!(x, $e::T(..)) & (a == w[0]) & (b == w[1]) & (c == w[2]) & (s == 0), 1),
                (Some($e::S { s, a, b, c }), Some(w)) => check(matches!(x, $e::S { .. }) & (a == w[0]) & (b == w[1]) & (c == w[2]) & (s == 0), 2),
                (Some($e::U(a, b)), Some(w)) => check(matches!(x, $e::U(..)) & (a == w[0]) & (b == w[1]), 3),
                (None, None) => {}
                _ => check(false, 4),
            }
            cover(0);
        }
        fn $g() {
            let (i, j) = (choose(3), choose(3));
            let mut f: Vec<Value> = four()[..3].iter().map(|x: &u8| Value::from(*x)).collect();
            f[i] = piece();
            f[j] = piece();
            let gone = choose(4);
            let k = choose(2);
            let v = if k == 0 {
                let mut v = EnumValue::new_tuple_variant_with_capacity("T", 3);
                for (n, f) in f.iter().enumerate() {
                    if n < gone {
                        v = v.with_tuple_field(f.clone());
                    }
                }
                v.finish()
            } else {
                let mut v = EnumValue::new_struct_variant_with_capacity("S", 3);
                for (n, f) in ["a", "b", "c"].into_iter().zip(&f) {
                    if n.as_bytes()[0] as usize != 97 + gone {
                        v = v.with_struct_field(n, f.clone());
                    }
                }
                v.finish()
            };
            let want = if gone < 3 { None } else { wanted(&f, &[[2, 0, 1], [0, 1, 2]][k]) };
            match ($e::from_reflect(&v), want) {
                (Some($e::T(a, b, s, c)), Some(w)) => check((k == 0) & (a == w[0]) & (b == w[1]) & (c == w[2]) & (s == 0), 1),
                (Some($e::S { s, a, b, c }), Some(w)) => check((k == 1) & (a == w[0]) & (b == w[1]) & (c == w[2]) & (s == 0), 2),
                (None, None) => {}
                _ => check(false, 4),
            }
            cover(0);
        }
    )* };
}
enums! {
    enum_w enum_w_shaped WE;
    enum_x enum_x_shaped XE;
}

entries! {
    p25_struct: typed::<W>();
    p25_tuple: typed::<WT>();
    p25_struct_uncopied: typed::<X>();
    p25_tuple_uncopied: typed::<XT>();
    p25_struct_shaped: shaped::<W>();
    p25_tuple_shaped: shaped::<WT>();
    p25_struct_uncopied_shaped: shaped::<X>();
    p25_tuple_uncopied_shaped: shaped::<XT>();
    p25_copied: copied::<W>(flip());
    p25_copied_tuple: copied::<WT>(flip());
    p25_uncopied: copied::<X>(false);
    p25_uncopied_tuple: copied::<XT>(false);
    p25_uncopied_refused: copied::<X>(true);
    p25_uncopied_tuple_refused: copied::<XT>(true);
    p25_in_list: in_list(false);
    p25_in_list_refused: in_list(true);
    p25_in_array: in_array(false);
    p25_in_array_refused: in_array(true);
    p25_in_map: in_map(false);
    p25_in_map_refused: in_map(true);
    p25_in_option: in_option(false);
    p25_in_option_refused: in_option(true);
    p25_in_tuple: in_tuple(false);
    p25_in_tuple_refused: in_tuple(true);
    p25_in_result: in_result(false);
    p25_in_result_refused: in_result(true);
    p25_in_range: in_range(false);
    p25_in_range_refused: in_range(true);
    p25_enum: enum_w();
    p25_enum_uncopied: enum_x();
    p25_enum_shaped: enum_w_shaped();
    p25_enum_uncopied_shaped: enum_x_shaped();
}
