//! Generated by gen_zoo.py. The reflected types the properties are checked on.
#![allow(dead_code, non_snake_case)]
use crate::model::*;
use crate::sx::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

#[derive(Reflect, Clone, Debug)]
pub struct Scalars {
    pub w: usize,
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: i128,
    pub k: bool,
    pub l: char,
    pub m: f32,
    pub n: f64,
    pub o: String,
}
impl Sym for Scalars {
    fn sym() -> Self {
        Scalars {
            w: Sym::sym(),
            a: Sym::sym(),
            b: Sym::sym(),
            c: Sym::sym(),
            d: Sym::sym(),
            e: Sym::sym(),
            f: Sym::sym(),
            g: Sym::sym(),
            h: Sym::sym(),
            i: Sym::sym(),
            j: Sym::sym(),
            k: Sym::sym(),
            l: Sym::sym(),
            m: Sym::sym(),
            n: Sym::sym(),
            o: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.w.same(&o.w)
            & self.a.same(&o.a)
            & self.b.same(&o.b)
            & self.c.same(&o.c)
            & self.d.same(&o.d)
            & self.e.same(&o.e)
            & self.f.same(&o.f)
            & self.g.same(&o.g)
            & self.h.same(&o.h)
            & self.i.same(&o.i)
            & self.j.same(&o.j)
            & self.k.same(&o.k)
            & self.l.same(&o.l)
            & self.m.same(&o.m)
            & self.n.same(&o.n)
            & self.o.same(&o.o)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.w.reset();
        self.a.reset();
        self.b.reset();
        self.c.reset();
        self.d.reset();
        self.e.reset();
        self.f.reset();
        self.g.reset();
        self.h.reset();
        self.i.reset();
        self.j.reset();
        self.k.reset();
        self.l.reset();
        self.m.reset();
        self.n.reset();
        self.o.reset();
    }
}
impl Typed for Scalars {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("w", self.w.model()),
            ("a", self.a.model()),
            ("b", self.b.model()),
            ("c", self.c.model()),
            ("d", self.d.model()),
            ("e", self.e.model()),
            ("f", self.f.model()),
            ("g", self.g.model()),
            ("h", self.h.model()),
            ("i", self.i.model()),
            ("j", self.j.model()),
            ("k", self.k.model()),
            ("l", self.l.model()),
            ("m", self.m.model()),
            ("n", self.n.model()),
            ("o", self.o.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Scalars>(),
            k: K::Struct(vec![
                ("w", <usize as Typed>::ty as TyFn),
                ("a", <u8 as Typed>::ty as TyFn),
                ("b", <u16 as Typed>::ty as TyFn),
                ("c", <u32 as Typed>::ty as TyFn),
                ("d", <u64 as Typed>::ty as TyFn),
                ("e", <u128 as Typed>::ty as TyFn),
                ("f", <i8 as Typed>::ty as TyFn),
                ("g", <i16 as Typed>::ty as TyFn),
                ("h", <i32 as Typed>::ty as TyFn),
                ("i", <i64 as Typed>::ty as TyFn),
                ("j", <i128 as Typed>::ty as TyFn),
                ("k", <bool as Typed>::ty as TyFn),
                ("l", <char as Typed>::ty as TyFn),
                ("m", <f32 as Typed>::ty as TyFn),
                ("n", <f64 as Typed>::ty as TyFn),
                ("o", <String as Typed>::ty as TyFn),
            ]),
        }
    }
}
/// declaration order differs from name order, and the first two fields have the same type
#[derive(Reflect, Clone, Debug)]
pub struct Named {
    pub z: u32,
    pub a: u32,
    pub m: String,
    pub k: bool,
}
impl Sym for Named {
    fn sym() -> Self {
        Named {
            z: Sym::sym(),
            a: Sym::sym(),
            m: Sym::sym(),
            k: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.z.same(&o.z) & self.a.same(&o.a) & self.m.same(&o.m) & self.k.same(&o.k)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.z.reset();
        self.a.reset();
        self.m.reset();
        self.k.reset();
    }
}
impl Typed for Named {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("z", self.z.model()),
            ("a", self.a.model()),
            ("m", self.m.model()),
            ("k", self.k.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Named>(),
            k: K::Struct(vec![
                ("z", <u32 as Typed>::ty as TyFn),
                ("a", <u32 as Typed>::ty as TyFn),
                ("m", <String as Typed>::ty as TyFn),
                ("k", <bool as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Pair(pub u32, pub u32);
impl Sym for Pair {
    fn sym() -> Self {
        Pair(Sym::sym(), Sym::sym())
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.0.same(&o.0) & self.1.same(&o.1)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.0.reset();
        self.1.reset();
    }
}
impl Typed for Pair {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![self.0.model(), self.1.model()])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Pair>(),
            k: K::TStruct(vec![<u32 as Typed>::ty as TyFn, <u32 as Typed>::ty as TyFn]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Triple(pub String, pub i8, pub Pair);
impl Sym for Triple {
    fn sym() -> Self {
        Triple(Sym::sym(), Sym::sym(), Sym::sym())
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.0.same(&o.0) & self.1.same(&o.1) & self.2.same(&o.2)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.0.reset();
        self.1.reset();
        self.2.reset();
    }
}
impl Typed for Triple {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![self.0.model(), self.1.model(), self.2.model()])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Triple>(),
            k: K::TStruct(vec![
                <String as Typed>::ty as TyFn,
                <i8 as Typed>::ty as TyFn,
                <Pair as Typed>::ty as TyFn,
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Unit;
impl Sym for Unit {
    fn sym() -> Self {
        Unit
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {}
}
impl Typed for Unit {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Unit>(),
            k: K::Struct(vec![]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Empty {}
impl Sym for Empty {
    fn sym() -> Self {
        Empty {}
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {}
}
impl Typed for Empty {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Empty>(),
            k: K::Struct(vec![]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct EmptyTuple();
impl Sym for EmptyTuple {
    fn sym() -> Self {
        EmptyTuple()
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {}
}
impl Typed for EmptyTuple {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<EmptyTuple>(),
            k: K::TStruct(vec![]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub enum Shape {
    Nothing,
    One(u32),
    Other(u32),
    Two(u8, String),
    Named { y: i8, x: i8 },
    Renamed { x: i8, y: i8 },
    Empty {},
    EmptyTuple(),
}
impl Sym for Shape {
    fn sym() -> Self {
        match choose(8) {
            0 => Shape::Nothing,
            1 => Shape::One(Sym::sym()),
            2 => Shape::Other(Sym::sym()),
            3 => Shape::Two(Sym::sym(), Sym::sym()),
            4 => Shape::Named {
                y: Sym::sym(),
                x: Sym::sym(),
            },
            5 => Shape::Renamed {
                x: Sym::sym(),
                y: Sym::sym(),
            },
            6 => Shape::Empty {},
            _ => Shape::EmptyTuple(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Shape::Nothing, Shape::Nothing) => true,
            (Shape::One(f_0), Shape::One(f_02)) => true & f_0.same(f_02),
            (Shape::Other(f_0), Shape::Other(f_02)) => true & f_0.same(f_02),
            (Shape::Two(f_0, f_1), Shape::Two(f_02, f_12)) => {
                true & f_0.same(f_02) & f_1.same(f_12)
            }
            (Shape::Named { y: f_y, x: f_x }, Shape::Named { y: f_y2, x: f_x2 }) => {
                true & f_y.same(f_y2) & f_x.same(f_x2)
            }
            (Shape::Renamed { x: f_x, y: f_y }, Shape::Renamed { x: f_x2, y: f_y2 }) => {
                true & f_x.same(f_x2) & f_y.same(f_y2)
            }
            (Shape::Empty {}, Shape::Empty {}) => true,
            (Shape::EmptyTuple(), Shape::EmptyTuple()) => true,
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            Shape::Nothing => {}
            Shape::One(f_0) => {
                f_0.reset();
            }
            Shape::Other(f_0) => {
                f_0.reset();
            }
            Shape::Two(f_0, f_1) => {
                f_0.reset();
                f_1.reset();
            }
            Shape::Named { y: f_y, x: f_x } => {
                f_y.reset();
                f_x.reset();
            }
            Shape::Renamed { x: f_x, y: f_y } => {
                f_x.reset();
                f_y.reset();
            }
            Shape::Empty {} => {}
            Shape::EmptyTuple() => {}
        }
    }
}
impl Typed for Shape {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            Shape::Nothing => M::Enum("Nothing", VK::Unit, vec![]),
            Shape::One(f_0) => M::Enum("One", VK::Tuple, vec![("", f_0.model())]),
            Shape::Other(f_0) => M::Enum("Other", VK::Tuple, vec![("", f_0.model())]),
            Shape::Two(f_0, f_1) => {
                M::Enum("Two", VK::Tuple, vec![("", f_0.model()), ("", f_1.model())])
            }
            Shape::Named { y: f_y, x: f_x } => M::Enum(
                "Named",
                VK::Struct,
                vec![("y", f_y.model()), ("x", f_x.model())],
            ),
            Shape::Renamed { x: f_x, y: f_y } => M::Enum(
                "Renamed",
                VK::Struct,
                vec![("x", f_x.model()), ("y", f_y.model())],
            ),
            Shape::Empty {} => M::Enum("Empty", VK::Struct, vec![]),
            Shape::EmptyTuple() => M::Enum("EmptyTuple", VK::Tuple, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Shape>(),
            k: K::Enum(vec![
                Var {
                    name: "Nothing",
                    kind: VK::Unit,
                    fields: vec![],
                },
                Var {
                    name: "One",
                    kind: VK::Tuple,
                    fields: vec![("", <u32 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Other",
                    kind: VK::Tuple,
                    fields: vec![("", <u32 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Two",
                    kind: VK::Tuple,
                    fields: vec![
                        ("", <u8 as Typed>::ty as TyFn),
                        ("", <String as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "Named",
                    kind: VK::Struct,
                    fields: vec![
                        ("y", <i8 as Typed>::ty as TyFn),
                        ("x", <i8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "Renamed",
                    kind: VK::Struct,
                    fields: vec![
                        ("x", <i8 as Typed>::ty as TyFn),
                        ("y", <i8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "Empty",
                    kind: VK::Struct,
                    fields: vec![],
                },
                Var {
                    name: "EmptyTuple",
                    kind: VK::Tuple,
                    fields: vec![],
                },
            ]),
        }
    }
}
/// a small enum, for use inside other types
#[derive(Reflect, Clone, Debug)]
pub enum Small {
    Off,
    Level(u8),
    Range { lo: i16, hi: i16 },
}
impl Sym for Small {
    fn sym() -> Self {
        match choose(3) {
            0 => Small::Off,
            1 => Small::Level(Sym::sym()),
            _ => Small::Range {
                lo: Sym::sym(),
                hi: Sym::sym(),
            },
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Small::Off, Small::Off) => true,
            (Small::Level(f_0), Small::Level(f_02)) => true & f_0.same(f_02),
            (
                Small::Range { lo: f_lo, hi: f_hi },
                Small::Range {
                    lo: f_lo2,
                    hi: f_hi2,
                },
            ) => true & f_lo.same(f_lo2) & f_hi.same(f_hi2),
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            Small::Off => {}
            Small::Level(f_0) => {
                f_0.reset();
            }
            Small::Range { lo: f_lo, hi: f_hi } => {
                f_lo.reset();
                f_hi.reset();
            }
        }
    }
}
impl Typed for Small {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            Small::Off => M::Enum("Off", VK::Unit, vec![]),
            Small::Level(f_0) => M::Enum("Level", VK::Tuple, vec![("", f_0.model())]),
            Small::Range { lo: f_lo, hi: f_hi } => M::Enum(
                "Range",
                VK::Struct,
                vec![("lo", f_lo.model()), ("hi", f_hi.model())],
            ),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Small>(),
            k: K::Enum(vec![
                Var {
                    name: "Off",
                    kind: VK::Unit,
                    fields: vec![],
                },
                Var {
                    name: "Level",
                    kind: VK::Tuple,
                    fields: vec![("", <u8 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Range",
                    kind: VK::Struct,
                    fields: vec![
                        ("lo", <i16 as Typed>::ty as TyFn),
                        ("hi", <i16 as Typed>::ty as TyFn),
                    ],
                },
            ]),
        }
    }
}
/// every container in one struct
#[derive(Reflect, Clone, Debug)]
pub struct Deep {
    pub t: (u8, bool),
    pub o: Option<u16>,
    pub v: Vec<i16>,
    pub arr: [u8; 2],
    pub map: BTreeMap<u8, i32>,
    pub bx: Box<Pair>,
    pub e: Small,
}
impl Sym for Deep {
    fn sym() -> Self {
        Deep {
            t: Sym::sym(),
            o: Sym::sym(),
            v: Sym::sym(),
            arr: Sym::sym(),
            map: Sym::sym(),
            bx: Sym::sym(),
            e: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.t.same(&o.t)
            & self.o.same(&o.o)
            & self.v.same(&o.v)
            & self.arr.same(&o.arr)
            & self.map.same(&o.map)
            & self.bx.same(&o.bx)
            & self.e.same(&o.e)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.t.reset();
        self.o.reset();
        self.v.reset();
        self.arr.reset();
        self.map.reset();
        self.bx.reset();
        self.e.reset();
    }
}
impl Typed for Deep {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("t", self.t.model()),
            ("o", self.o.model()),
            ("v", self.v.model()),
            ("arr", self.arr.model()),
            ("map", self.map.model()),
            ("bx", self.bx.model()),
            ("e", self.e.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Deep>(),
            k: K::Struct(vec![
                ("t", <(u8, bool) as Typed>::ty as TyFn),
                ("o", <Option<u16> as Typed>::ty as TyFn),
                ("v", <Vec<i16> as Typed>::ty as TyFn),
                ("arr", <[u8; 2] as Typed>::ty as TyFn),
                ("map", <BTreeMap<u8, i32> as Typed>::ty as TyFn),
                ("bx", <Box<Pair> as Typed>::ty as TyFn),
                ("e", <Small as Typed>::ty as TyFn),
            ]),
        }
    }
}
/// containers of compound values
#[derive(Reflect, Clone, Debug)]
pub struct Outer {
    pub map: BTreeMap<String, Small>,
    pub list: Vec<Pair>,
    pub opt: Option<Named>,
    pub arr: [Small; 2],
}
impl Sym for Outer {
    fn sym() -> Self {
        Outer {
            map: Sym::sym(),
            list: Sym::sym(),
            opt: Sym::sym(),
            arr: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.map.same(&o.map)
            & self.list.same(&o.list)
            & self.opt.same(&o.opt)
            & self.arr.same(&o.arr)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.map.reset();
        self.list.reset();
        self.opt.reset();
        self.arr.reset();
    }
}
impl Typed for Outer {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("map", self.map.model()),
            ("list", self.list.model()),
            ("opt", self.opt.model()),
            ("arr", self.arr.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Outer>(),
            k: K::Struct(vec![
                ("map", <BTreeMap<String, Small> as Typed>::ty as TyFn),
                ("list", <Vec<Pair> as Typed>::ty as TyFn),
                ("opt", <Option<Named> as Typed>::ty as TyFn),
                ("arr", <[Small; 2] as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct DeepA {
    pub t: (u8, bool),
    pub o: Option<u16>,
    pub arr: [u8; 2],
    pub e: Small,
}
impl Sym for DeepA {
    fn sym() -> Self {
        DeepA {
            t: Sym::sym(),
            o: Sym::sym(),
            arr: Sym::sym(),
            e: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.t.same(&o.t) & self.o.same(&o.o) & self.arr.same(&o.arr) & self.e.same(&o.e)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.t.reset();
        self.o.reset();
        self.arr.reset();
        self.e.reset();
    }
}
impl Typed for DeepA {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("t", self.t.model()),
            ("o", self.o.model()),
            ("arr", self.arr.model()),
            ("e", self.e.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<DeepA>(),
            k: K::Struct(vec![
                ("t", <(u8, bool) as Typed>::ty as TyFn),
                ("o", <Option<u16> as Typed>::ty as TyFn),
                ("arr", <[u8; 2] as Typed>::ty as TyFn),
                ("e", <Small as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct DeepB {
    pub v: Vec<i16>,
    pub map: BTreeMap<u8, i32>,
    pub bx: Box<Pair>,
}
impl Sym for DeepB {
    fn sym() -> Self {
        DeepB {
            v: Sym::sym(),
            map: Sym::sym(),
            bx: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.v.same(&o.v) & self.map.same(&o.map) & self.bx.same(&o.bx)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.v.reset();
        self.map.reset();
        self.bx.reset();
    }
}
impl Typed for DeepB {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("v", self.v.model()),
            ("map", self.map.model()),
            ("bx", self.bx.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<DeepB>(),
            k: K::Struct(vec![
                ("v", <Vec<i16> as Typed>::ty as TyFn),
                ("map", <BTreeMap<u8, i32> as Typed>::ty as TyFn),
                ("bx", <Box<Pair> as Typed>::ty as TyFn),
            ]),
        }
    }
}
/// no `Clone`, no `Debug`
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub struct Bare {
    pub p: Pair,
    pub q: Option<i8>,
    pub r: [u16; 2],
}
impl Sym for Bare {
    fn sym() -> Self {
        Bare {
            p: Sym::sym(),
            q: Sym::sym(),
            r: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.p.same(&o.p) & self.q.same(&o.q) & self.r.same(&o.r)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.p.reset();
        self.q.reset();
        self.r.reset();
    }
}
impl Typed for Bare {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("p", self.p.model()),
            ("q", self.q.model()),
            ("r", self.r.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Bare>(),
            k: K::Struct(vec![
                ("p", <Pair as Typed>::ty as TyFn),
                ("q", <Option<i8> as Typed>::ty as TyFn),
                ("r", <[u16; 2] as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub struct BareTuple(pub Named, pub Vec<u8>);
impl Sym for BareTuple {
    fn sym() -> Self {
        BareTuple(Sym::sym(), Sym::sym())
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.0.same(&o.0) & self.1.same(&o.1)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.0.reset();
        self.1.reset();
    }
}
impl Typed for BareTuple {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![self.0.model(), self.1.model()])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<BareTuple>(),
            k: K::TStruct(vec![
                <Named as Typed>::ty as TyFn,
                <Vec<u8> as Typed>::ty as TyFn,
            ]),
        }
    }
}
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub enum BareEnum {
    A { f: Pair, g: [u8; 2] },
    B(Small, (i8, i8)),
    C,
}
impl Sym for BareEnum {
    fn sym() -> Self {
        match choose(3) {
            0 => BareEnum::A {
                f: Sym::sym(),
                g: Sym::sym(),
            },
            1 => BareEnum::B(Sym::sym(), Sym::sym()),
            _ => BareEnum::C,
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (BareEnum::A { f: f_f, g: f_g }, BareEnum::A { f: f_f2, g: f_g2 }) => {
                true & f_f.same(f_f2) & f_g.same(f_g2)
            }
            (BareEnum::B(f_0, f_1), BareEnum::B(f_02, f_12)) => {
                true & f_0.same(f_02) & f_1.same(f_12)
            }
            (BareEnum::C, BareEnum::C) => true,
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            BareEnum::A { f: f_f, g: f_g } => {
                f_f.reset();
                f_g.reset();
            }
            BareEnum::B(f_0, f_1) => {
                f_0.reset();
                f_1.reset();
            }
            BareEnum::C => {}
        }
    }
}
impl Typed for BareEnum {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            BareEnum::A { f: f_f, g: f_g } => M::Enum(
                "A",
                VK::Struct,
                vec![("f", f_f.model()), ("g", f_g.model())],
            ),
            BareEnum::B(f_0, f_1) => {
                M::Enum("B", VK::Tuple, vec![("", f_0.model()), ("", f_1.model())])
            }
            BareEnum::C => M::Enum("C", VK::Unit, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<BareEnum>(),
            k: K::Enum(vec![
                Var {
                    name: "A",
                    kind: VK::Struct,
                    fields: vec![
                        ("f", <Pair as Typed>::ty as TyFn),
                        ("g", <[u8; 2] as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "B",
                    kind: VK::Tuple,
                    fields: vec![
                        ("", <Small as Typed>::ty as TyFn),
                        ("", <(i8, i8) as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "C",
                    kind: VK::Unit,
                    fields: vec![],
                },
            ]),
        }
    }
}
/// lists and maps in an enum
#[derive(Reflect, Clone, Debug)]
pub enum Listed {
    L(Vec<u8>),
    M { m: BTreeMap<u8, u8>, v: Vec<Small> },
    N,
}
impl Sym for Listed {
    fn sym() -> Self {
        match choose(3) {
            0 => Listed::L(Sym::sym()),
            1 => Listed::M {
                m: Sym::sym(),
                v: Sym::sym(),
            },
            _ => Listed::N,
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Listed::L(f_0), Listed::L(f_02)) => true & f_0.same(f_02),
            (Listed::M { m: f_m, v: f_v }, Listed::M { m: f_m2, v: f_v2 }) => {
                true & f_m.same(f_m2) & f_v.same(f_v2)
            }
            (Listed::N, Listed::N) => true,
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            Listed::L(f_0) => {
                f_0.reset();
            }
            Listed::M { m: f_m, v: f_v } => {
                f_m.reset();
                f_v.reset();
            }
            Listed::N => {}
        }
    }
}
impl Typed for Listed {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            Listed::L(f_0) => M::Enum("L", VK::Tuple, vec![("", f_0.model())]),
            Listed::M { m: f_m, v: f_v } => M::Enum(
                "M",
                VK::Struct,
                vec![("m", f_m.model()), ("v", f_v.model())],
            ),
            Listed::N => M::Enum("N", VK::Unit, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Listed>(),
            k: K::Enum(vec![
                Var {
                    name: "L",
                    kind: VK::Tuple,
                    fields: vec![("", <Vec<u8> as Typed>::ty as TyFn)],
                },
                Var {
                    name: "M",
                    kind: VK::Struct,
                    fields: vec![
                        ("m", <BTreeMap<u8, u8> as Typed>::ty as TyFn),
                        ("v", <Vec<Small> as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "N",
                    kind: VK::Unit,
                    fields: vec![],
                },
            ]),
        }
    }
}
/// recursive through a list
#[derive(Reflect, Clone, Debug)]
pub struct Tree {
    pub label: i32,
    pub kids: Vec<Tree>,
}
impl Sym for Tree {
    fn sym() -> Self {
        Tree::hand_sym()
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.label.same(&o.label) & self.kids.same(&o.kids)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.label.reset();
        self.kids.reset();
    }
}
impl Typed for Tree {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("label", self.label.model()),
            ("kids", self.kids.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Tree>(),
            k: K::Struct(vec![
                ("label", <i32 as Typed>::ty as TyFn),
                ("kids", <Vec<Tree> as Typed>::ty as TyFn),
            ]),
        }
    }
}
impl Tree {
    pub fn grow(depth: usize) -> Tree {
        let n = if depth == 0 {
            0
        } else {
            choose(param(1, 2) + 1)
        };
        let label = Sym::sym();
        let mut kids = Vec::new();
        for _ in 0..n {
            kids.push(Tree::grow(depth - 1));
        }
        Tree { label, kids }
    }
    fn hand_sym() -> Tree {
        Tree::grow(param(3, 2))
    }
}
/// recursive through a box
#[derive(Reflect, Clone, Debug)]
pub enum Expr {
    Lit(i16),
    Neg(Box<Expr>),
    Add { l: Box<Expr>, r: Box<Expr> },
}
impl Sym for Expr {
    fn sym() -> Self {
        Expr::grow(param(3, 2))
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Expr::Lit(f_0), Expr::Lit(f_02)) => true & f_0.same(f_02),
            (Expr::Neg(f_0), Expr::Neg(f_02)) => true & f_0.same(f_02),
            (Expr::Add { l: f_l, r: f_r }, Expr::Add { l: f_l2, r: f_r2 }) => {
                true & f_l.same(f_l2) & f_r.same(f_r2)
            }
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            Expr::Lit(f_0) => {
                f_0.reset();
            }
            Expr::Neg(f_0) => {
                f_0.reset();
            }
            Expr::Add { l: f_l, r: f_r } => {
                f_l.reset();
                f_r.reset();
            }
        }
    }
}
impl Typed for Expr {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            Expr::Lit(f_0) => M::Enum("Lit", VK::Tuple, vec![("", f_0.model())]),
            Expr::Neg(f_0) => M::Enum("Neg", VK::Tuple, vec![("", f_0.model())]),
            Expr::Add { l: f_l, r: f_r } => M::Enum(
                "Add",
                VK::Struct,
                vec![("l", f_l.model()), ("r", f_r.model())],
            ),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Expr>(),
            k: K::Enum(vec![
                Var {
                    name: "Lit",
                    kind: VK::Tuple,
                    fields: vec![("", <i16 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Neg",
                    kind: VK::Tuple,
                    fields: vec![("", <Box<Expr> as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Add",
                    kind: VK::Struct,
                    fields: vec![
                        ("l", <Box<Expr> as Typed>::ty as TyFn),
                        ("r", <Box<Expr> as Typed>::ty as TyFn),
                    ],
                },
            ]),
        }
    }
}
impl Expr {
    pub fn grow(depth: usize) -> Expr {
        match if depth == 0 { 0 } else { choose(3) } {
            0 => Expr::Lit(Sym::sym()),
            1 => Expr::Neg(Box::new(Expr::grow(depth - 1))),
            _ => Expr::Add {
                l: Box::new(Expr::grow(depth - 1)),
                r: Box::new(Expr::grow(depth - 1)),
            },
        }
    }
}
/// fields the reflection does not see, in front of and between fields it does see
#[derive(Reflect, Clone, Debug)]
pub struct SkipNamed {
    #[reflect(skip)]
    pub hidden: u32,
    pub a: u32,
    #[reflect(skip)]
    pub inner: u8,
    pub b: u8,
}
impl Sym for SkipNamed {
    fn sym() -> Self {
        SkipNamed {
            hidden: Sym::sym(),
            a: Sym::sym(),
            inner: Sym::sym(),
            b: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.hidden.same(&o.hidden)
            & self.a.same(&o.a)
            & self.inner.same(&o.inner)
            & self.b.same(&o.b)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.hidden = Default::default();
        self.a.reset();
        self.inner = Default::default();
        self.b.reset();
    }
}
impl Typed for SkipNamed {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![("a", self.a.model()), ("b", self.b.model())])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<SkipNamed>(),
            k: K::Struct(vec![
                ("a", <u32 as Typed>::ty as TyFn),
                ("b", <u8 as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct SkipTuple(
    #[reflect(skip)] pub u32,
    pub u32,
    #[reflect(skip)] pub u8,
    pub u8,
);
impl Sym for SkipTuple {
    fn sym() -> Self {
        SkipTuple(Sym::sym(), Sym::sym(), Sym::sym(), Sym::sym())
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.0.same(&o.0) & self.1.same(&o.1) & self.2.same(&o.2) & self.3.same(&o.3)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.0 = Default::default();
        self.1.reset();
        self.2 = Default::default();
        self.3.reset();
    }
}
impl Typed for SkipTuple {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![self.1.model(), self.3.model()])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<SkipTuple>(),
            k: K::TStruct(vec![<u32 as Typed>::ty as TyFn, <u8 as Typed>::ty as TyFn]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub enum SkipEnum {
    T(#[reflect(skip)] u32, u32, #[reflect(skip)] u8, u8),
    S {
        #[reflect(skip)]
        hidden: u32,
        a: u32,
        #[reflect(skip)]
        inner: u8,
        b: u8,
    },
    #[reflect(skip)]
    Gone,
    Kept,
}
impl Sym for SkipEnum {
    fn sym() -> Self {
        match choose(3) {
            0 => SkipEnum::T(Sym::sym(), Sym::sym(), Sym::sym(), Sym::sym()),
            1 => SkipEnum::S {
                hidden: Sym::sym(),
                a: Sym::sym(),
                inner: Sym::sym(),
                b: Sym::sym(),
            },
            _ => SkipEnum::Kept,
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (SkipEnum::T(f_0, f_1, f_2, f_3), SkipEnum::T(f_02, f_12, f_22, f_32)) => {
                true & f_0.same(f_02) & f_1.same(f_12) & f_2.same(f_22) & f_3.same(f_32)
            }
            (
                SkipEnum::S {
                    hidden: f_hidden,
                    a: f_a,
                    inner: f_inner,
                    b: f_b,
                },
                SkipEnum::S {
                    hidden: f_hidden2,
                    a: f_a2,
                    inner: f_inner2,
                    b: f_b2,
                },
            ) => {
                true & f_hidden.same(f_hidden2)
                    & f_a.same(f_a2)
                    & f_inner.same(f_inner2)
                    & f_b.same(f_b2)
            }
            (SkipEnum::Gone, SkipEnum::Gone) => true,
            (SkipEnum::Kept, SkipEnum::Kept) => true,
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            SkipEnum::T(f_0, f_1, f_2, f_3) => {
                *f_0 = Default::default();
                f_1.reset();
                *f_2 = Default::default();
                f_3.reset();
            }
            SkipEnum::S {
                hidden: f_hidden,
                a: f_a,
                inner: f_inner,
                b: f_b,
            } => {
                *f_hidden = Default::default();
                f_a.reset();
                *f_inner = Default::default();
                f_b.reset();
            }
            SkipEnum::Gone => {}
            SkipEnum::Kept => {}
        }
    }
}
impl Typed for SkipEnum {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            SkipEnum::T(f_0, f_1, f_2, f_3) => {
                M::Enum("T", VK::Tuple, vec![("", f_1.model()), ("", f_3.model())])
            }
            SkipEnum::S {
                hidden: f_hidden,
                a: f_a,
                inner: f_inner,
                b: f_b,
            } => M::Enum(
                "S",
                VK::Struct,
                vec![("a", f_a.model()), ("b", f_b.model())],
            ),
            SkipEnum::Gone => unreachable!(),
            SkipEnum::Kept => M::Enum("Kept", VK::Unit, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<SkipEnum>(),
            k: K::Enum(vec![
                Var {
                    name: "T",
                    kind: VK::Tuple,
                    fields: vec![
                        ("", <u32 as Typed>::ty as TyFn),
                        ("", <u8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "S",
                    kind: VK::Struct,
                    fields: vec![
                        ("a", <u32 as Typed>::ty as TyFn),
                        ("b", <u8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "Kept",
                    kind: VK::Unit,
                    fields: vec![],
                },
            ]),
        }
    }
}
/// field names that generated code might use itself
#[derive(Reflect, Clone, Debug)]
pub struct Words {
    pub name: u8,
    pub index: u8,
    pub value: u8,
    pub self_: u8,
    pub ty: u8,
    pub field: u8,
}
impl Sym for Words {
    fn sym() -> Self {
        Words {
            name: Sym::sym(),
            index: Sym::sym(),
            value: Sym::sym(),
            self_: Sym::sym(),
            ty: Sym::sym(),
            field: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.name.same(&o.name)
            & self.index.same(&o.index)
            & self.value.same(&o.value)
            & self.self_.same(&o.self_)
            & self.ty.same(&o.ty)
            & self.field.same(&o.field)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.name.reset();
        self.index.reset();
        self.value.reset();
        self.self_.reset();
        self.ty.reset();
        self.field.reset();
    }
}
impl Typed for Words {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("name", self.name.model()),
            ("index", self.index.model()),
            ("value", self.value.model()),
            ("self_", self.self_.model()),
            ("ty", self.ty.model()),
            ("field", self.field.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Words>(),
            k: K::Struct(vec![
                ("name", <u8 as Typed>::ty as TyFn),
                ("index", <u8 as Typed>::ty as TyFn),
                ("value", <u8 as Typed>::ty as TyFn),
                ("self_", <u8 as Typed>::ty as TyFn),
                ("ty", <u8 as Typed>::ty as TyFn),
                ("field", <u8 as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub enum WordsEnum {
    V {
        name: u8,
        index: u8,
        value: u8,
        enum_: u8,
        iter: u8,
        ty: u8,
    },
    W {
        value: u8,
        name: u8,
    },
}
impl Sym for WordsEnum {
    fn sym() -> Self {
        match choose(2) {
            0 => WordsEnum::V {
                name: Sym::sym(),
                index: Sym::sym(),
                value: Sym::sym(),
                enum_: Sym::sym(),
                iter: Sym::sym(),
                ty: Sym::sym(),
            },
            _ => WordsEnum::W {
                value: Sym::sym(),
                name: Sym::sym(),
            },
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (
                WordsEnum::V {
                    name: f_name,
                    index: f_index,
                    value: f_value,
                    enum_: f_enum_,
                    iter: f_iter,
                    ty: f_ty,
                },
                WordsEnum::V {
                    name: f_name2,
                    index: f_index2,
                    value: f_value2,
                    enum_: f_enum_2,
                    iter: f_iter2,
                    ty: f_ty2,
                },
            ) => {
                true & f_name.same(f_name2)
                    & f_index.same(f_index2)
                    & f_value.same(f_value2)
                    & f_enum_.same(f_enum_2)
                    & f_iter.same(f_iter2)
                    & f_ty.same(f_ty2)
            }
            (
                WordsEnum::W {
                    value: f_value,
                    name: f_name,
                },
                WordsEnum::W {
                    value: f_value2,
                    name: f_name2,
                },
            ) => true & f_value.same(f_value2) & f_name.same(f_name2),
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            WordsEnum::V {
                name: f_name,
                index: f_index,
                value: f_value,
                enum_: f_enum_,
                iter: f_iter,
                ty: f_ty,
            } => {
                f_name.reset();
                f_index.reset();
                f_value.reset();
                f_enum_.reset();
                f_iter.reset();
                f_ty.reset();
            }
            WordsEnum::W {
                value: f_value,
                name: f_name,
            } => {
                f_value.reset();
                f_name.reset();
            }
        }
    }
}
impl Typed for WordsEnum {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            WordsEnum::V {
                name: f_name,
                index: f_index,
                value: f_value,
                enum_: f_enum_,
                iter: f_iter,
                ty: f_ty,
            } => M::Enum(
                "V",
                VK::Struct,
                vec![
                    ("name", f_name.model()),
                    ("index", f_index.model()),
                    ("value", f_value.model()),
                    ("enum_", f_enum_.model()),
                    ("iter", f_iter.model()),
                    ("ty", f_ty.model()),
                ],
            ),
            WordsEnum::W {
                value: f_value,
                name: f_name,
            } => M::Enum(
                "W",
                VK::Struct,
                vec![("value", f_value.model()), ("name", f_name.model())],
            ),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<WordsEnum>(),
            k: K::Enum(vec![
                Var {
                    name: "V",
                    kind: VK::Struct,
                    fields: vec![
                        ("name", <u8 as Typed>::ty as TyFn),
                        ("index", <u8 as Typed>::ty as TyFn),
                        ("value", <u8 as Typed>::ty as TyFn),
                        ("enum_", <u8 as Typed>::ty as TyFn),
                        ("iter", <u8 as Typed>::ty as TyFn),
                        ("ty", <u8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "W",
                    kind: VK::Struct,
                    fields: vec![
                        ("value", <u8 as Typed>::ty as TyFn),
                        ("name", <u8 as Typed>::ty as TyFn),
                    ],
                },
            ]),
        }
    }
}
/// many fields of the same type
#[derive(Reflect, Clone, Debug)]
pub struct Wide {
    pub f00: u8,
    pub f01: u8,
    pub f02: u8,
    pub f03: u8,
    pub f04: u8,
    pub f05: u8,
    pub f06: u8,
    pub f07: u8,
    pub f08: u8,
    pub f09: u8,
    pub f10: u8,
    pub f11: u8,
}
impl Sym for Wide {
    fn sym() -> Self {
        Wide {
            f00: Sym::sym(),
            f01: Sym::sym(),
            f02: Sym::sym(),
            f03: Sym::sym(),
            f04: Sym::sym(),
            f05: Sym::sym(),
            f06: Sym::sym(),
            f07: Sym::sym(),
            f08: Sym::sym(),
            f09: Sym::sym(),
            f10: Sym::sym(),
            f11: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.f00.same(&o.f00)
            & self.f01.same(&o.f01)
            & self.f02.same(&o.f02)
            & self.f03.same(&o.f03)
            & self.f04.same(&o.f04)
            & self.f05.same(&o.f05)
            & self.f06.same(&o.f06)
            & self.f07.same(&o.f07)
            & self.f08.same(&o.f08)
            & self.f09.same(&o.f09)
            & self.f10.same(&o.f10)
            & self.f11.same(&o.f11)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.f00.reset();
        self.f01.reset();
        self.f02.reset();
        self.f03.reset();
        self.f04.reset();
        self.f05.reset();
        self.f06.reset();
        self.f07.reset();
        self.f08.reset();
        self.f09.reset();
        self.f10.reset();
        self.f11.reset();
    }
}
impl Typed for Wide {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("f00", self.f00.model()),
            ("f01", self.f01.model()),
            ("f02", self.f02.model()),
            ("f03", self.f03.model()),
            ("f04", self.f04.model()),
            ("f05", self.f05.model()),
            ("f06", self.f06.model()),
            ("f07", self.f07.model()),
            ("f08", self.f08.model()),
            ("f09", self.f09.model()),
            ("f10", self.f10.model()),
            ("f11", self.f11.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Wide>(),
            k: K::Struct(vec![
                ("f00", <u8 as Typed>::ty as TyFn),
                ("f01", <u8 as Typed>::ty as TyFn),
                ("f02", <u8 as Typed>::ty as TyFn),
                ("f03", <u8 as Typed>::ty as TyFn),
                ("f04", <u8 as Typed>::ty as TyFn),
                ("f05", <u8 as Typed>::ty as TyFn),
                ("f06", <u8 as Typed>::ty as TyFn),
                ("f07", <u8 as Typed>::ty as TyFn),
                ("f08", <u8 as Typed>::ty as TyFn),
                ("f09", <u8 as Typed>::ty as TyFn),
                ("f10", <u8 as Typed>::ty as TyFn),
                ("f11", <u8 as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct WideTuple(
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
    pub u8,
);
impl Sym for WideTuple {
    fn sym() -> Self {
        WideTuple(
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
            Sym::sym(),
        )
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.0.same(&o.0)
            & self.1.same(&o.1)
            & self.2.same(&o.2)
            & self.3.same(&o.3)
            & self.4.same(&o.4)
            & self.5.same(&o.5)
            & self.6.same(&o.6)
            & self.7.same(&o.7)
            & self.8.same(&o.8)
            & self.9.same(&o.9)
            & self.10.same(&o.10)
            & self.11.same(&o.11)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.0.reset();
        self.1.reset();
        self.2.reset();
        self.3.reset();
        self.4.reset();
        self.5.reset();
        self.6.reset();
        self.7.reset();
        self.8.reset();
        self.9.reset();
        self.10.reset();
        self.11.reset();
    }
}
impl Typed for WideTuple {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::TStruct(vec![
            self.0.model(),
            self.1.model(),
            self.2.model(),
            self.3.model(),
            self.4.model(),
            self.5.model(),
            self.6.model(),
            self.7.model(),
            self.8.model(),
            self.9.model(),
            self.10.model(),
            self.11.model(),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<WideTuple>(),
            k: K::TStruct(vec![
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
                <u8 as Typed>::ty as TyFn,
            ]),
        }
    }
}
/// names that differ in case, or in their length
#[derive(Reflect, Clone, Debug)]
#[allow(non_snake_case)]
pub struct CaseNames {
    pub a: u32,
    pub A: u32,
    pub aa: u32,
    pub A_: u8,
}
impl Sym for CaseNames {
    fn sym() -> Self {
        CaseNames {
            a: Sym::sym(),
            A: Sym::sym(),
            aa: Sym::sym(),
            A_: Sym::sym(),
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        true & self.a.same(&o.a) & self.A.same(&o.A) & self.aa.same(&o.aa) & self.A_.same(&o.A_)
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        self.a.reset();
        self.A.reset();
        self.aa.reset();
        self.A_.reset();
    }
}
impl Typed for CaseNames {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        M::Struct(vec![
            ("a", self.a.model()),
            ("A", self.A.model()),
            ("aa", self.aa.model()),
            ("A_", self.A_.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<CaseNames>(),
            k: K::Struct(vec![
                ("a", <u32 as Typed>::ty as TyFn),
                ("A", <u32 as Typed>::ty as TyFn),
                ("aa", <u32 as Typed>::ty as TyFn),
                ("A_", <u8 as Typed>::ty as TyFn),
            ]),
        }
    }
}
#[derive(Reflect, Clone, Debug)]
#[allow(non_snake_case, non_camel_case_types)]
pub enum CaseEnum {
    V { x: u8, X: u8, xx: u8 },
    v { x: u8, X: u8 },
    VV(u8),
    Vv(u8),
    Vvv,
}
impl Sym for CaseEnum {
    fn sym() -> Self {
        match choose(5) {
            0 => CaseEnum::V {
                x: Sym::sym(),
                X: Sym::sym(),
                xx: Sym::sym(),
            },
            1 => CaseEnum::v {
                x: Sym::sym(),
                X: Sym::sym(),
            },
            2 => CaseEnum::VV(Sym::sym()),
            3 => CaseEnum::Vv(Sym::sym()),
            _ => CaseEnum::Vvv,
        }
    }
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (
                CaseEnum::V {
                    x: f_x,
                    X: f_X,
                    xx: f_xx,
                },
                CaseEnum::V {
                    x: f_x2,
                    X: f_X2,
                    xx: f_xx2,
                },
            ) => true & f_x.same(f_x2) & f_X.same(f_X2) & f_xx.same(f_xx2),
            (CaseEnum::v { x: f_x, X: f_X }, CaseEnum::v { x: f_x2, X: f_X2 }) => {
                true & f_x.same(f_x2) & f_X.same(f_X2)
            }
            (CaseEnum::VV(f_0), CaseEnum::VV(f_02)) => true & f_0.same(f_02),
            (CaseEnum::Vv(f_0), CaseEnum::Vv(f_02)) => true & f_0.same(f_02),
            (CaseEnum::Vvv, CaseEnum::Vvv) => true,
            _ => false,
        }
    }
    #[allow(unused_variables)]
    fn reset(&mut self) {
        match self {
            CaseEnum::V {
                x: f_x,
                X: f_X,
                xx: f_xx,
            } => {
                f_x.reset();
                f_X.reset();
                f_xx.reset();
            }
            CaseEnum::v { x: f_x, X: f_X } => {
                f_x.reset();
                f_X.reset();
            }
            CaseEnum::VV(f_0) => {
                f_0.reset();
            }
            CaseEnum::Vv(f_0) => {
                f_0.reset();
            }
            CaseEnum::Vvv => {}
        }
    }
}
impl Typed for CaseEnum {
    #[allow(unused_variables)]
    fn model(&self) -> M {
        match self {
            CaseEnum::V {
                x: f_x,
                X: f_X,
                xx: f_xx,
            } => M::Enum(
                "V",
                VK::Struct,
                vec![("x", f_x.model()), ("X", f_X.model()), ("xx", f_xx.model())],
            ),
            CaseEnum::v { x: f_x, X: f_X } => M::Enum(
                "v",
                VK::Struct,
                vec![("x", f_x.model()), ("X", f_X.model())],
            ),
            CaseEnum::VV(f_0) => M::Enum("VV", VK::Tuple, vec![("", f_0.model())]),
            CaseEnum::Vv(f_0) => M::Enum("Vv", VK::Tuple, vec![("", f_0.model())]),
            CaseEnum::Vvv => M::Enum("Vvv", VK::Unit, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<CaseEnum>(),
            k: K::Enum(vec![
                Var {
                    name: "V",
                    kind: VK::Struct,
                    fields: vec![
                        ("x", <u8 as Typed>::ty as TyFn),
                        ("X", <u8 as Typed>::ty as TyFn),
                        ("xx", <u8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "v",
                    kind: VK::Struct,
                    fields: vec![
                        ("x", <u8 as Typed>::ty as TyFn),
                        ("X", <u8 as Typed>::ty as TyFn),
                    ],
                },
                Var {
                    name: "VV",
                    kind: VK::Tuple,
                    fields: vec![("", <u8 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Vv",
                    kind: VK::Tuple,
                    fields: vec![("", <u8 as Typed>::ty as TyFn)],
                },
                Var {
                    name: "Vvv",
                    kind: VK::Unit,
                    fields: vec![],
                },
            ]),
        }
    }
}
fn double(v: &dyn Reflect) -> Option<u32> {
    u32::from_reflect(v).map(|x| x.wrapping_mul(2))
}
/// fields with their own conversion
#[derive(Reflect, Clone, Debug)]
pub struct WithFn {
    pub a: u32,
    #[reflect(from_reflect_with(double))]
    pub b: u32,
    pub c: u32,
}
#[derive(Reflect, Clone, Debug)]
pub struct WithFnTuple(#[reflect(from_reflect_with(double))] pub u32, pub u32);
#[derive(Reflect, Clone, Debug)]
pub enum WithFnEnum {
    T(u32, #[reflect(from_reflect_with(double))] u32),
    S {
        #[reflect(from_reflect_with(double))]
        a: u32,
        b: u32,
    },
}
#[derive(Reflect, Clone, Debug)]
pub struct Gen<T>
where
    T: FromReflect + DescribeType + Clone + std::fmt::Debug,
{
    pub inner: T,
    pub list: Vec<T>,
}
impl<T: Sym + FromReflect + DescribeType + Clone + std::fmt::Debug> Sym for Gen<T> {
    fn sym() -> Self {
        Gen {
            inner: T::sym(),
            list: Sym::sym(),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.inner.same(&o.inner) & self.list.same(&o.list)
    }
}
impl<T: Typed + FromReflect + DescribeType + Clone + std::fmt::Debug> Typed for Gen<T> {
    fn model(&self) -> M {
        M::Struct(vec![
            ("inner", self.inner.model()),
            ("list", self.list.model()),
        ])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Self>(),
            k: K::Struct(vec![
                ("inner", T::ty as TyFn),
                ("list", <Vec<T> as Typed>::ty as TyFn),
            ]),
        }
    }
}
/// a type the reflection can't look into
#[derive(Clone, Debug)]
pub struct Hidden(pub u8);
impl DescribeType for Hidden {
    fn build(
        graph: &mut mirror_mirror::type_info::graph::TypeGraph,
    ) -> mirror_mirror::type_info::graph::NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            mirror_mirror::type_info::graph::OpaqueNode::new::<Self>(Default::default(), graph)
        })
    }
}
impl Reflect for Hidden {
    fn type_descriptor(&self) -> std::borrow::Cow<'static, TypeDescriptor> {
        <Self as DescribeType>::type_descriptor()
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn as_reflect(&self) -> &dyn Reflect {
        self
    }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
        self
    }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned {
        ReflectOwned::Opaque(self)
    }
    fn reflect_ref(&self) -> ReflectRef<'_> {
        ReflectRef::Opaque(self)
    }
    fn reflect_mut(&mut self) -> ReflectMut<'_> {
        ReflectMut::Opaque(self)
    }
    fn patch(&mut self, value: &dyn Reflect) {
        if let Some(x) = value.downcast_ref::<Self>() {
            *self = x.clone();
        }
    }
    fn to_value(&self) -> Value {
        Value::from(self.0)
    }
    fn clone_reflect(&self) -> Box<dyn Reflect> {
        Box::new(self.clone())
    }
    fn debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hidden")
    }
}
impl FromReflect for Hidden {
    fn from_reflect(r: &dyn Reflect) -> Option<Self> {
        r.downcast_ref::<Self>().cloned()
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct HasHidden {
    pub a: u8,
    pub h: Hidden,
    pub b: u8,
}
/// generic in a type and a length
#[derive(Reflect, Clone, Debug)]
pub struct GenT<T, const N: usize>(pub T, pub [u8; N])
where
    T: FromReflect + DescribeType + Clone + std::fmt::Debug;
impl<T: Sym + FromReflect + DescribeType + Clone + std::fmt::Debug, const N: usize> Sym for GenT<T, N> {
    fn sym() -> Self {
        GenT(T::sym(), Sym::sym())
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) & self.1.same(&o.1)
    }
}
impl<T: Typed + FromReflect + DescribeType + Clone + std::fmt::Debug, const N: usize> Typed for GenT<T, N> {
    fn model(&self) -> M {
        M::TStruct(vec![self.0.model(), self.1.model()])
    }
    fn ty() -> Ty {
        Ty { name: std::any::type_name::<Self>(), k: K::TStruct(vec![T::ty as TyFn, <[u8; N] as Typed>::ty as TyFn]) }
    }
}
#[derive(Reflect, Clone, Debug)]
pub enum GenE<T: FromReflect + DescribeType + Clone + std::fmt::Debug, const N: usize> {
    A { a: [T; N], b: u8 },
    B(T, Option<T>),
    C,
}
impl<T: Sym + FromReflect + DescribeType + Clone + std::fmt::Debug, const N: usize> Sym for GenE<T, N> {
    fn sym() -> Self {
        match choose(3) {
            0 => GenE::A { a: Sym::sym(), b: Sym::sym() },
            1 => GenE::B(T::sym(), Sym::sym()),
            _ => GenE::C,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (GenE::A { a, b }, GenE::A { a: a2, b: b2 }) => a.same(a2) & b.same(b2),
            (GenE::B(a, b), GenE::B(a2, b2)) => a.same(a2) & b.same(b2),
            (GenE::C, GenE::C) => true,
            _ => false,
        }
    }
}
impl<T: Typed + FromReflect + DescribeType + Clone + std::fmt::Debug, const N: usize> Typed for GenE<T, N> {
    fn model(&self) -> M {
        match self {
            GenE::A { a, b } => M::Enum("A", VK::Struct, vec![("a", a.model()), ("b", b.model())]),
            GenE::B(a, b) => M::Enum("B", VK::Tuple, vec![("", a.model()), ("", b.model())]),
            GenE::C => M::Enum("C", VK::Unit, vec![]),
        }
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Self>(),
            k: K::Enum(vec![
                Var { name: "A", kind: VK::Struct, fields: vec![("a", <[T; N] as Typed>::ty as TyFn), ("b", <u8 as Typed>::ty as TyFn)] },
                Var { name: "B", kind: VK::Tuple, fields: vec![("", T::ty as TyFn), ("", <Option<T> as Typed>::ty as TyFn)] },
                Var { name: "C", kind: VK::Unit, fields: vec![] },
            ]),
        }
    }
}
