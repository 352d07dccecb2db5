//! values that are larger than what is tried in full: their sizes are a few fixed ones, some of their content is symbolic
#![allow(dead_code)]
use crate::model::*;
use crate::sx::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// a long list
#[derive(Reflect, Clone, Debug)]
pub struct LongList {
    pub items: Vec<u16>,
    pub last: u8,
}
impl Sym for LongList {
    fn sym() -> Self {
        let n = [9, 17, 33, 65, 257][choose(5)];
        LongList { items: numbers(n), last: Sym::sym() }
    }
    fn same(&self, o: &Self) -> bool {
        self.items.same(&o.items) & self.last.same(&o.last)
    }
}
pub fn numbers(n: usize) -> Vec<u16> {
    let s = any_u16();
    (0..n).map(|i| (i as u16).wrapping_mul(7) ^ s).collect()
}
impl Typed for LongList {
    fn model(&self) -> M {
        M::Struct(vec![("items", self.items.model()), ("last", self.last.model())])
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<LongList>(), k: K::Struct(vec![("items", <Vec<u16> as Typed>::ty as TyFn), ("last", <u8 as Typed>::ty as TyFn)]) }
    }
}
/// many entries
#[derive(Reflect, Clone, Debug)]
pub struct LongMap(pub BTreeMap<u16, u8>, pub u8);
impl Sym for LongMap {
    fn sym() -> Self {
        let n = [7, 13, 40][choose(3)];
        let s = any_u8();
        LongMap((0..n).map(|i| (i as u16 * 3, i as u8 ^ s)).collect(), Sym::sym())
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) & self.1.same(&o.1)
    }
}
impl Typed for LongMap {
    fn model(&self) -> M {
        M::TStruct(vec![self.0.model(), self.1.model()])
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<LongMap>(), k: K::TStruct(vec![<BTreeMap<u16, u8> as Typed>::ty as TyFn, <u8 as Typed>::ty as TyFn]) }
    }
}
/// a long text, also as a key
#[derive(Reflect, Clone, Debug)]
pub enum LongText {
    A { text: String },
    B(BTreeMap<String, String>),
}
pub fn words(n: usize) -> String {
    let (a, b) = (any_u8(), any_u8());
    assume((a < 0x80) & (b < 0x80));
    let mut v = vec![b'x'; n];
    for i in 1..n {
        v[i] = b'a' + (i % 23) as u8;
    }
    v[0] = a;
    // a letter of two bytes, any of é, ê, ë, ..
    v[n - 2] = 0xc3;
    v[n - 1] = 0x80 | (b & 0x3f);
    // Safety: ASCII but for the last letter
    unsafe { String::from_utf8_unchecked(v) }
}
impl Sym for LongText {
    fn sym() -> Self {
        let n = [9, 65, 260][choose(3)];
        if flip() {
            LongText::A { text: words(n) }
        } else {
            LongText::B([(words(n), words(n + 1))].into_iter().collect())
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (LongText::A { text: a }, LongText::A { text: b }) => a.same(b),
            (LongText::B(a), LongText::B(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Typed for LongText {
    fn model(&self) -> M {
        match self {
            LongText::A { text } => M::Enum("A", VK::Struct, vec![("text", text.model())]),
            LongText::B(m) => M::Enum("B", VK::Tuple, vec![("0", m.model())]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<LongText>(),
            k: K::Enum(vec![
                Var { name: "A", kind: VK::Struct, fields: vec![("text", <String as Typed>::ty as TyFn)] },
                Var { name: "B", kind: VK::Tuple, fields: vec![("0", <BTreeMap<String, String> as Typed>::ty as TyFn)] },
            ]),
        }
    }
}
/// deeply nested
#[derive(Reflect, Clone, Debug)]
pub struct Chain {
    pub n: u8,
    pub next: Option<Box<Chain>>,
}
impl Sym for Chain {
    fn sym() -> Self {
        let n = [5, 12, 20][choose(3)];
        let mut c = Chain { n: Sym::sym(), next: None };
        for i in 0..n {
            c = Chain { n: if i == n - 2 { Sym::sym() } else { i as u8 }, next: Some(Box::new(c)) };
        }
        c
    }
    fn same(&self, o: &Self) -> bool {
        self.n.same(&o.n) & self.next.same(&o.next)
    }
}
impl Typed for Chain {
    fn model(&self) -> M {
        M::Struct(vec![("n", self.n.model()), ("next", self.next.model())])
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Chain>(), k: K::Struct(vec![("n", <u8 as Typed>::ty as TyFn), ("next", <Option<Box<Chain>> as Typed>::ty as TyFn)]) }
    }
}
fn spot(n: usize) -> usize {
    [0, n / 2, n - 2, n - 1][choose(4)]
}
/// the same content, except for one place somewhere, where it has other content of the same or another type
pub fn spoil(m: &mut M) {
    let other = |x: &mut M| match x {
        M::S(s) => {
            let t = s.tag;
            *x = M::S(if flip() { Sc::sym(t) } else { Sc::sym(if t == Tag::u32 { Tag::u64 } else { Tag::u32 }) })
        }
        _ => unreachable!(),
    };
    match m {
        // the list, the entries, the text, or further down the chain
        M::Struct(f) => match &mut f[0].1 {
            M::List(l) => {
                let i = spot(l.len());
                other(&mut l[i])
            }
            M::S(_) => {
                let mut d = [1, 4, 5][choose(3)];
                let mut at = m;
                loop {
                    let M::Struct(f) = at else { unreachable!() };
                    if d == 0 {
                        return other(&mut f[0].1);
                    }
                    d -= 1;
                    let M::Enum(_, _, f) = &mut f[1].1 else { unreachable!() };
                    at = &mut f[0].1;
                }
            }
            _ => unreachable!(),
        },
        M::TStruct(f) => match &mut f[0] {
            M::Map(l) => {
                let i = spot(l.len());
                other(&mut l[i].1)
            }
            _ => unreachable!(),
        },
        M::Enum(_, _, f) => match &mut f[0].1 {
            M::S(s) => *s = words(s.s.len()).sc(),
            M::Map(l) => l[0].1 = M::S(words(10).sc()),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
/// a path to somewhere in it, or just beyond
pub fn walk(m: &M) -> Vec<Step> {
    match m {
        M::Struct(f) => match &f[0].1 {
            M::List(l) => {
                let i = [0, l.len() / 2, l.len() - 1, l.len(), 256 + l.len() / 2][choose(5)];
                vec![Step::Named("items".into()), Step::Get(M::S(if i < 256 && flip() { (i as u8).sc() } else { i.sc() }))]
            }
            _ => {
                let mut s = Vec::new();
                for _ in 0..[1, 5, 11, 19, 20, 21][choose(6)] {
                    s.push(Step::Named("next".into()));
                    s.push(Step::Variant("Some".into()));
                    s.push(Step::Num(0));
                }
                if flip() {
                    s.push(Step::Named("n".into()));
                }
                s
            }
        },
        M::TStruct(f) => match &f[0] {
            M::Map(l) => {
                let i = [0, 3 * (l.len() / 2), 3 * l.len() - 3, 3 * l.len(), 4][choose(5)];
                vec![Step::Num(0), Step::Get(M::S((i as u16).sc()))]
            }
            _ => unreachable!(),
        },
        M::Enum("A", ..) => vec![Step::Variant("A".into()), Step::Named("text".into())],
        M::Enum(_, _, f) => match &f[0].1 {
            M::Map(l) => vec![Step::Num(0), Step::Get(if flip() { l[0].0.clone() } else { M::S(words(9).sc()) })],
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
