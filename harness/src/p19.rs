//! P19: a path is the sequence of its steps, however it is built
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;

/// a step that names nothing in particular
fn step(wide: bool) -> Step {
    match choose(4) {
        0 => Step::Named(ascii(param(0, 1))),
        1 => Step::Num(Sym::sym()),
        2 => Step::Get(if wide {
            match choose(18) {
                16 => M::List(vec![M::S(Sc::sym(Tag::u8))]),
                17 => M::Tuple(vec![M::S(Sc::sym(Tag::u8))]),
                i => M::S(Sc::sym(TAGS[i])),
            }
        } else {
            M::S(Sc::sym([Tag::u8, Tag::usize, Tag::String][choose(3)]))
        }),
        _ => Step::Variant(ascii(param(0, 1))),
    }
}
fn steps(max: usize) -> Vec<Step> {
    let n = choose(max + 1);
    (0..n).map(|_| step(false)).collect()
}
fn key(s: &Step) -> Key {
    match s {
        Step::Named(n) => Key::named_field(n.clone()),
        Step::Num(i) => Key::numbered_field(*i),
        Step::Get(k) => Key::get(k.value()),
        Step::Variant(n) => Key::variant(n.clone()),
    }
}
fn is(k: &Key, s: &Step) -> bool {
    match (k, s) {
        (Key::Field(NamedOrNumbered::Named(a)), Step::Named(b)) => str_eq(a, b),
        (Key::Field(NamedOrNumbered::Numbered(a)), Step::Num(b)) => a == b,
        (Key::Get(a), Step::Get(b)) => agrees(a, b),
        (Key::Variant(a), Step::Variant(b)) => str_eq(a, b),
        _ => false,
    }
}
fn all(p: &KeyPath, s: &[Step]) -> bool {
    let mut n = 0;
    let mut r = true;
    for k in p {
        r &= n < s.len() && is(k, &s[n]);
        n += 1;
    }
    r & (n == s.len()) & (p.len() == n) & (p.is_empty() == (n == 0))
}
fn chain(p: KeyPath, s: &Step) -> KeyPath {
    match s {
        Step::Named(n) => match choose(3) {
            0 => p.field(n.as_str()),
            1 => p.field(n),
            _ => p.field(n.clone()),
        },
        Step::Num(i) => p.field(*i),
        Step::Get(k) => p.get(k.value()),
        Step::Variant(n) => p.variant(n.clone()),
    }
}
fn first(s: &Step) -> KeyPath {
    match s {
        Step::Named(n) => key_path::field(n),
        Step::Num(i) => key_path::field(*i),
        Step::Get(k) => key_path::get(k.value()),
        Step::Variant(n) => key_path::variant(n.clone()),
    }
}
fn built() {
    let s = steps(param(5, 2));
    let p = key_path_of(&s);
    check(all(&p, &s), 1);
    let mut q = KeyPath::default();
    for x in &s {
        q = chain(q, x);
    }
    check(all(&q, &s) && p == q, 2);
    if !s.is_empty() {
        let mut q = first(&s[0]);
        for x in &s[1..] {
            q = chain(q, x);
        }
        check(all(&q, &s) && p == q, 3);
        let mut q = KeyPath::from(key(&s[0]));
        q.extend(s[1..].iter().map(key));
        check(all(&q, &s) && p == q, 4);
    }
    let q: KeyPath = s.iter().map(key).collect();
    check(all(&q, &s) && p == q, 5);
    let mut q = KeyPath::default();
    for x in &s {
        q.push(key(x));
    }
    check(all(&q, &s) && p == q && p.clone() == q, 6);
    cover(0);
}
fn taken_apart() {
    let s = steps(param(5, 2));
    let mut p = key_path_of(&s);
    let n = s.len();
    // forwards and backwards, by reference and by value
    let mut it = p.iter();
    let mut jt = p.clone().into_iter();
    let (mut a, mut b) = (0, n);
    check(it.len() == n && jt.len() == n, 1);
    while a < b {
        if flip() {
            check(it.next().map_or(false, |k| is(k, &s[a])) && jt.next().map_or(false, |k| is(&k, &s[a])), 2);
            a += 1;
        } else {
            b -= 1;
            check(it.next_back().map_or(false, |k| is(k, &s[b])) && jt.next_back().map_or(false, |k| is(&k, &s[b])), 3);
        }
        check(it.len() == b - a && jt.len() == b - a, 4);
    }
    check(it.next().is_none() && jt.next().is_none() && it.next_back().is_none() && jt.next_back().is_none(), 5);
    check(it.next().is_none() && jt.next().is_none(), 6);
    // every prefix that isn't empty, in order
    let mut c = p.breadcrumbs();
    for i in 1..=n {
        match c.next() {
            Some(k) => {
                let mut ok = k.len() == i;
                for j in 0..i.min(k.len()) {
                    ok &= is(&k[j], &s[j]);
                }
                check(ok, 7);
            }
            None => check(false, 8),
        }
    }
    check(c.next().is_none() && c.next().is_none(), 9);
    // last step first
    for i in (0..n).rev() {
        p.pop();
        check(all(&p, &s[..i]), 10);
    }
    p.pop();
    check(all(&p, &[]) && p == KeyPath::default(), 11);
    cover(0);
}
/// the iterators of a path, but not step by step
fn skimmed() {
    let s = steps(param(5, 2));
    let p = key_path_of(&s);
    let n = s.len();
    let back = |i: usize| n - 1 - i;
    match choose(6) {
        0 => skims!(p.iter(), n, |k, i: usize| is(k, &s[i]), 20),
        1 => skims!(p.into_iter(), n, |k: Key, i: usize| is(&k, &s[i]), 30),
        2 => skims!(p.iter().rev(), n, |k, i: usize| is(k, &s[back(i)]), 40),
        3 => skims!(p.into_iter().rev(), n, |k: Key, i: usize| is(&k, &s[back(i)]), 50),
        4 => skims!((&p).into_iter(), n, |k, i: usize| is(k, &s[i]), 60),
        _ => skims!(
            p.breadcrumbs(),
            n,
            |c: &[Key], i: usize| {
                let mut ok = c.len() == i + 1;
                for j in 0..c.len().min(i + 1) {
                    ok &= is(&c[j], &s[j]);
                }
                ok
            },
            70
        ),
    }
    cover(0);
}
/// how many steps are left is known, also by what wraps the iterator
fn sized() {
    let s = steps(param(5, 2));
    let p = key_path_of(&s);
    let n = s.len();
    let (j, k) = (choose(n + 1), choose(n + 2));
    let mut it = p.iter();
    let mut jt = p.clone().into_iter();
    for _ in 0..j {
        if flip() {
            it.next();
            jt.next();
        } else {
            it.next_back();
            jt.next_back();
        }
    }
    let left = n - j;
    check(it.size_hint() == (left, Some(left)) && it.len() == left, 1);
    check(jt.size_hint() == (left, Some(left)) && jt.len() == left, 2);
    check(it.take(k).len() == left.min(k), 3);
    check(jt.take(k).len() == left.min(k), 4);
    cover(0);
}
fn same(a: &Step, b: &Step) -> bool {
    match (a, b) {
        (Step::Named(a), Step::Named(b)) | (Step::Variant(a), Step::Variant(b)) => str_eq(a, b),
        (Step::Num(a), Step::Num(b)) => a == b,
        (Step::Get(a), Step::Get(b)) => a.eq(b),
        _ => false,
    }
}
struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8 | self.0 >> 56) ^ *x as u64;
        }
    }
}
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    let mut h = Fnv(7);
    x.hash(&mut h);
    std::hash::Hasher::finish(&h)
}
fn equal() {
    let (s, t) = (step(true), step(true));
    let (a, b) = (key(&s), key(&t));
    // floats compare as generic values do
    let float = |s: &Step| matches!(s, Step::Get(M::S(x)) if matches!(x.tag, Tag::f32 | Tag::f64));
    assume(!(float(&s) && float(&t)));
    let want = same(&s, &t);
    check((a == b) == want && (b == a) == want, 1);
    check((KeyPath::from(a.clone()) == KeyPath::from(b.clone())) == want, 2);
    if want {
        check(hash(&a) == hash(&b), 3);
    }
    check(a == a.clone(), 4);
    cover(0);
}
fn equal_paths() {
    let (s, t) = (steps(2), steps(2));
    let (p, q) = (key_path_of(&s), key_path_of(&t));
    let mut want = s.len() == t.len();
    for i in 0..s.len().min(t.len()) {
        want &= same(&s[i], &t[i]);
    }
    check((p == q) == want, 1);
    if want {
        check(hash(&p) == hash(&q), 2);
    }
    cover(0);
}
/// text of a number
fn dec(i: u128) -> String {
    let mut i = i as u8;
    let mut d = vec![];
    loop {
        d.insert(0, b'0' + i % 10);
        i /= 10;
        if i == 0 {
            return unsafe { String::from_utf8_unchecked(d) };
        }
    }
}
fn text(s: &Step) -> String {
    match s {
        Step::Named(n) => ".".to_string() + n,
        Step::Num(i) => ".".to_string() + &dec(*i as u128),
        Step::Get(M::S(k)) => match k.tag {
            Tag::bool => if k.bits == 1 { "[true]" } else { "[false]" }.to_string(),
            Tag::String => "[\"".to_string() + &k.s + "\"]",
            _ => "[".to_string() + &dec(k.bits) + "]",
        },
        Step::Get(_) => unreachable!(),
        Step::Variant(n) => "::".to_string() + n,
    }
}
fn shown() {
    let n = choose(param(5, 2) + 1);
    let s: Vec<Step> = (0..n)
        .map(|_| match choose(6) {
            0 => Step::Named(ascii(2)),
            1 => {
                let i = any_u8();
                assume(i < 100);
                Step::Num(i as usize)
            }
            2 => {
                let i = any_u8();
                assume(i < 100);
                Step::Get(M::S(Sc { tag: [Tag::u8, Tag::u32, Tag::usize][choose(3)], bits: i as u128, s: String::new() }))
            }
            3 => Step::Get(M::S(Sc::sym(Tag::bool))),
            4 => {
                let b = any_u8();
                assume(b >= b'a' && b <= b'z');
                Step::Get(M::S(Sc { tag: Tag::String, bits: 0, s: unsafe { String::from_utf8_unchecked(vec![b]) } }))
            }
            _ => Step::Variant(ascii(2)),
        })
        .collect();
    let p = key_path_of(&s);
    let want: String = s.iter().map(text).collect();
    check(str_eq(&p.to_string(), &want), 1);
    if !s.is_empty() {
        check(str_eq(&key(&s[0]).to_string(), &text(&s[0])), 2);
    }
    cover(0);
}
fn macros() {
    let (i, k, b): (usize, String, u8) = Sym::sym();
    let n = |s: &str| Step::Named(s.to_string());
    let v = |s: &str| Step::Variant(s.to_string());
    check(all(&key_path!(), &[]), 1);
    check(all(&key_path!(.foo), &[n("foo")]), 2);
    check(all(&key_path!(.0), &[Step::Num(0)]), 3);
    check(all(&key_path!(.a.b), &[n("a"), n("b")]), 4);
    check(all(&key_path!(.a.1), &[n("a"), Step::Num(1)]), 5);
    check(all(&key_path!(::Some), &[v("Some")]), 6);
    check(all(&key_path!([i]), &[Step::Get(i.model())]), 7);
    check(all(&key_path!([k.as_str()]), &[Step::Get(k.model())]), 8);
    check(all(&key_path!(.a[i][b]), &[n("a"), Step::Get(i.model()), Step::Get(b.model())]), 9);
    check(all(&key_path!(.a::B.c), &[n("a"), v("B"), n("c")]), 10);
    check(all(&key_path!(.a::B.2[b]), &[n("a"), v("B"), Step::Num(2), Step::Get(b.model())]), 11);
    check(all(&key_path!([b]::A::B.x), &[Step::Get(b.model()), v("A"), v("B"), n("x")]), 12);
    check(all(&key_path!([b + 0].x), &[Step::Get(b.model()), n("x")]), 13);
    cover(0);
}
/// following a path is following its parts one after the other
fn parts<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    let s = path(&m, 2);
    let p = key_path_of(&s);
    let i = choose(s.len() + 1);
    let (a, b) = (key_path_of(&s[..i]), key_path_of(&s[i..]));
    let want = nav(&m, &s);
    let got = x.at(&a).and_then(|y| y.at(&b));
    match (x.at(&p), got, want) {
        (Some(y), Some(z), Some(m)) => {
            check(agrees(y, m) && agrees(z, m), 1);
        }
        (None, None, None) => {}
        _ => check(false, 2),
    }
    cover(0);
}
/// many steps
fn many() {
    let n = [9, 17, 33][choose(3)];
    let x = any_u8();
    let of = |i: usize, x: u8| match i % 4 {
        0 => Step::Named(format!("f{i}")),
        1 => Step::Num(i),
        2 => Step::Get(M::S((x ^ i as u8).sc())),
        _ => Step::Variant(format!("V{i}")),
    };
    let s: Vec<Step> = (0..n).map(|i| of(i, x)).collect();
    let mut p = key_path_of(&s);
    check(all(&p, &s), 1);
    let k = [0, n / 2, n][choose(3)];
    let mut q = key_path_of(&s[..k]);
    q.extend(key_path_of(&s[k..]));
    check(all(&q, &s) && p == q && hash(&p) == hash(&q), 2);
    let r: Vec<Key> = p.iter().rev().cloned().collect();
    check(r.len() == n && (0..n).all(|i| is(&r[n - 1 - i], &s[i])), 3);
    let c: Vec<usize> = p.breadcrumbs().map(|k| k.len()).collect();
    check(c.len() == n && (0..n).all(|i| c[i] == i + 1), 4);
    // another step somewhere
    let d = [2, 6, n / 4 * 4 - 2][choose(3)];
    let y = any_u8();
    let t: Vec<Step> = (0..n).map(|i| of(i, if i == d { y } else { x })).collect();
    let q = key_path_of(&t);
    check((p == q) == (x == y), 5);
    p.pop();
    check(all(&p, &s[..n - 1]) && p != q, 6);
    cover(0);
}

/// several steps
fn shown_row() {
    fn letter() -> String {
        let b = any_u8();
        assume((b >= b'a') & (b <= b'z'));
        unsafe { String::from_utf8_unchecked(vec![b]) }
    }
    fn figure() -> u8 {
        let i = any_u8();
        assume(i < 10);
        i
    }
    let n = 2 + choose(2);
    let s: Vec<Step> = (0..n)
        .map(|_| match choose(5) {
            0 => Step::Named(letter()),
            1 => Step::Num(figure() as usize),
            2 => Step::Get(M::S(figure().sc())),
            3 => Step::Get(M::S(letter().sc())),
            _ => Step::Variant(letter()),
        })
        .collect();
    let p = key_path_of(&s);
    let want: String = s.iter().map(text).collect();
    check(str_eq(&p.to_string(), &want), 1);
    cover(0);
}
/// numbers and keys of every size and kind
fn shown_keys() {
    let n = [100, 255, 256, 65536, usize::MAX][choose(5)];
    check(str_eq(&KeyPath::default().field(n).to_string(), &(".".to_string() + &n.to_string())), 1);
    macro_rules! keys { ($($v:expr),*) => { [$(($v.to_value(), format!("[{:?}]", $v))),*] } }
    let k = keys![-1i8, i16::MIN, -70000i32, i64::MIN, -5i128, 255u8, 65535u16, u32::MAX, u64::MAX, 1u128 << 50, 'x', "ab".to_string(), true, 1.5f32, -2.25f64];
    let i = choose(k.len());
    let (v, t) = &k[i];
    let p = KeyPath::default().field("a").get(v.clone()).variant("B");
    check(str_eq(&p.to_string(), &(".a".to_string() + t + "::B")), 2);
    cover(0);
}

entries! {
    p19_skimmed: skimmed();
    p19_sized: sized();
    p19_shown_row: shown_row();
    p19_shown_keys: shown_keys();
    p19_many: many();
    p19_built: built();
    p19_apart: taken_apart();
    p19_equal: equal();
    p19_equal_paths: equal_paths();
    p19_shown: shown();
    p19_macros: macros();
    p19_parts_deep: parts::<DeepA>();
    p19_parts_shape: parts::<Shape>();
    p19_parts_expr: parts::<Expr>();
    p19_parts_vec: parts::<Vec<Option<Pair>>>();
    p19_parts_map: parts::<std::collections::BTreeMap<u8, Pair>>();
}
