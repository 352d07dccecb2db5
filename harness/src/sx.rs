//! Symbolic inputs and verdicts. Under the symbolic engine the `symx_*` functions are built in;
//! in the native replay binary they read a concrete input list.
#![allow(dead_code)]

extern "C" {
    fn symx_u8() -> u8;
    fn symx_u16() -> u16;
    fn symx_u32() -> u32;
    fn symx_u64() -> u64;
    fn symx_param(i: u32, default: u64) -> u64;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, id: u32);
    fn symx_cover(id: u32);
    fn symx_observe(x: u64);
    fn symx_concrete(x: u64) -> u64;
    fn symx_spawn(f: extern "C" fn(*mut u8), arg: *mut u8);
    fn symx_join();
}

pub fn any_u8() -> u8 {
    unsafe { symx_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { symx_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { symx_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { symx_u64() }
}
pub fn any_u128() -> u128 {
    (any_u64() as u128) | ((any_u64() as u128) << 64)
}
/// bound `i` of the run, `default` in the quick tier
pub fn param(i: u32, default: u64) -> usize {
    unsafe { symx_param(i, default) as usize }
}
pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
}
/// the property: must hold for every input. `id` names the clause in reports.
#[track_caller]
pub fn check(c: bool, id: u32) {
    unsafe { symx_assert(c, id) }
}
pub fn cover(id: u32) {
    unsafe { symx_cover(id) }
}
pub fn observe(x: u64) {
    unsafe { symx_observe(x) }
}
/// what several threads give that run at the same time, in any order
pub fn at_once<T: Send>(l: Vec<Box<dyn FnOnce() -> T + Send>>) -> Vec<T> {
    struct Job<T>(Box<dyn FnOnce() -> T + Send>, *mut Option<T>);
    extern "C" fn go<T>(p: *mut u8) {
        let Job(f, to) = *unsafe { Box::from_raw(p as *mut Job<T>) };
        let x = f();
        unsafe { *to = Some(x) }
    }
    let mut out = Vec::new();
    for f in l {
        let to: *mut Option<T> = Box::into_raw(Box::new(None));
        out.push(to);
        unsafe { symx_spawn(go::<T>, Box::into_raw(Box::new(Job(f, to))) as *mut u8) }
    }
    unsafe { symx_join() }
    out.into_iter().map(|p| unsafe { Box::from_raw(p) }.unwrap()).collect()
}
/// a number below `n`, one path per value
pub fn choose(n: usize) -> usize {
    let k = any_u8();
    assume((k as usize) < n);
    unsafe { symx_concrete(k as u64) as usize }
}
/// symbolic boolean, one path per value
pub fn flip() -> bool {
    choose(2) == 1
}
/// a symbolic string, every ASCII content of every length up to `max`
pub fn ascii(max: usize) -> String {
    let n = choose(max + 1);
    ascii_n(n)
}
pub fn ascii_n(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = any_u8();
        assume(b < 0x80);
        v.push(b);
    }
    // Safety: ASCII
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn any_char() -> char {
    let c = any_u32();
    assume((c < 0xd800) | ((c > 0xdfff) & (c < 0x11_0000)));
    // Safety: a scalar value
    unsafe { char::from_u32_unchecked(c) }
}

/// A type with symbolic values and an equality that does not go through the code under test.
pub trait Sym: Sized {
    fn sym() -> Self;
    fn same(&self, o: &Self) -> bool;
    /// set the fields the reflection does not see to their defaults
    fn reset(&mut self) {}
}

macro_rules! scalars {
    ($($t:ty, $x:ident => $e:expr, $a:ident $b:ident $c:expr;)*) => { $(
        impl Sym for $t {
            fn sym() -> Self { $e }
            fn same(&self, o: &Self) -> bool { let ($a, $b) = (self, o); $c }
        }
    )* };
}
scalars! {
    u8, x => any_u8(), a b a == b;
    u16, x => any_u16(), a b a == b;
    u32, x => any_u32(), a b a == b;
    u64, x => any_u64(), a b a == b;
    usize, x => any_u64() as usize, a b a == b;
    u128, x => any_u128(), a b a == b;
    i8, x => any_u8() as i8, a b a == b;
    i16, x => any_u16() as i16, a b a == b;
    i32, x => any_u32() as i32, a b a == b;
    i64, x => any_u64() as i64, a b a == b;
    i128, x => any_u128() as i128, a b a == b;
    bool, x => any_u8() & 1 == 1, a b a == b;
    char, x => any_char(), a b a == b;
    f32, x => f32::from_bits(any_u32()), a b a.to_bits() == b.to_bits();
    f64, x => f64::from_bits(any_u64()), a b a.to_bits() == b.to_bits();
    String, x => ascii(param(0, 2)), a b a.len() == b.len() && a.as_bytes() == b.as_bytes();
}

impl<T: Sym> Sym for Box<T> {
    fn sym() -> Self {
        Box::new(T::sym())
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn reset(&mut self) {
        (**self).reset()
    }
}
impl<T: Sym> Sym for Option<T> {
    fn sym() -> Self {
        if flip() {
            Some(T::sym())
        } else {
            None
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn reset(&mut self) {
        if let Some(x) = self {
            x.reset()
        }
    }
}
impl<T: Sym, E: Sym> Sym for Result<T, E> {
    fn sym() -> Self {
        if flip() {
            Ok(T::sym())
        } else {
            Err(E::sym())
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
/// every list of length up to the run's bound
impl<T: Sym> Sym for Vec<T> {
    fn sym() -> Self {
        let n = choose(param(1, 2) + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::sym());
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for i in 0..self.len() {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn reset(&mut self) {
        for x in self {
            x.reset()
        }
    }
}
impl<T: Sym, const N: usize> Sym for [T; N] {
    fn sym() -> Self {
        std::array::from_fn(|_| T::sym())
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = true;
        for i in 0..N {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn reset(&mut self) {
        for x in self {
            x.reset()
        }
    }
}
impl<K: Sym + Ord, V: Sym> Sym for std::collections::BTreeMap<K, V> {
    fn sym() -> Self {
        let n = choose(param(2, 2) + 1);
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..n {
            m.insert(K::sym(), V::sym());
        }
        m
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for ((k, v), (k2, v2)) in self.iter().zip(o.iter()) {
            r &= k.same(k2) & v.same(v2);
        }
        r
    }
}
macro_rules! sym_tuple {
    ($(($($t:ident $i:tt),*);)*) => { $(
        impl<$($t: Sym),*> Sym for ($($t,)*) {
            fn sym() -> Self { ($($t::sym(),)*) }
            #[allow(unused_variables)]
            fn same(&self, o: &Self) -> bool { true $(& self.$i.same(&o.$i))* }
        }
    )* };
}
sym_tuple! {
    ();
    (A 0);
    (A 0, B 1);
    (A 0, B 1, C 2);
    (A 0, B 1, C 2, D 3);
    (A 0, B 1, C 2, D 3, E 4);
    (A 0, B 1, C 2, D 3, E 4, F 5);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
}
impl<T: Sym> Sym for std::ops::Range<T> {
    fn sym() -> Self {
        T::sym()..T::sym()
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start) & self.end.same(&o.end)
    }
}
impl<T: Sym> Sym for std::ops::RangeFrom<T> {
    fn sym() -> Self {
        T::sym()..
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start)
    }
}
impl<T: Sym> Sym for std::ops::RangeTo<T> {
    fn sym() -> Self {
        ..T::sym()
    }
    fn same(&self, o: &Self) -> bool {
        self.end.same(&o.end)
    }
}
impl<T: Sym> Sym for std::ops::RangeToInclusive<T> {
    fn sym() -> Self {
        ..=T::sym()
    }
    fn same(&self, o: &Self) -> bool {
        self.end.same(&o.end)
    }
}
impl Sym for std::ops::RangeFull {
    fn sym() -> Self {
        ..
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
macro_rules! nonzero {
    ($($t:ident $i:ty;)*) => { $(
        impl Sym for std::num::$t {
            fn sym() -> Self {
                let x = <$i as Sym>::sym();
                assume(x != 0);
                // Safety: not zero
                unsafe { std::num::$t::new_unchecked(x) }
            }
            fn same(&self, o: &Self) -> bool { self.get() == o.get() }
        }
    )* };
}
nonzero! {
    NonZeroU8 u8; NonZeroU16 u16; NonZeroU32 u32; NonZeroU64 u64; NonZeroU128 u128; NonZeroUsize usize;
    NonZeroI8 i8; NonZeroI16 i16; NonZeroI32 i32; NonZeroI64 i64; NonZeroI128 i128;
}
/// harness entry points: `name: body;`, plus the table the replay binary looks them up in
macro_rules! entries {
    ($($name:ident: $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() {
                $body;
            }
        )*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
/// an iterator over `n` things, `ok(x, i)` recognising the one at `i`: passing over some, counting and
/// going through the rest, wherever it stands
macro_rules! skims {
    ($it:expr, $n:expr, $ok:expr, $id:expr) => {{
        let n: usize = $n;
        let mut ok = $ok;
        let mut it = $it;
        let j = choose(n + 1);
        for i in 0..j {
            match it.next() {
                Some(x) => check(ok(x, i), $id),
                None => check(false, $id),
            }
        }
        match choose(5) {
            0 => {
                let k = choose(n + 1);
                match it.nth(k) {
                    Some(x) => check(j + k < n && ok(x, j + k), $id + 1),
                    None => check(j + k >= n, $id + 1),
                }
                match it.next() {
                    Some(x) => check(j + k + 1 < n && ok(x, j + k + 1), $id + 1),
                    None => check(j + k + 1 >= n, $id + 1),
                }
            }
            1 => check(it.count() == n - j, $id + 2),
            2 => match it.last() {
                Some(x) => check(j < n && ok(x, n - 1), $id + 3),
                None => check(j == n, $id + 3),
            },
            3 => {
                let (a, b) = it.size_hint();
                check(a <= n - j && b.map_or(true, |b| b >= n - j), $id + 4);
            }
            _ => {
                let mut i = j;
                it.for_each(|x| {
                    check(i < n && ok(x, i), $id + 5);
                    i += 1;
                });
                check(i == n, $id + 5);
            }
        }
    }};
}
