#!/usr/bin/env python3
"""Writes src/zoo.rs: the reflected types the properties are checked on, each with its symbolic
values, a structural equality, and a model of its content and its type that do not go through the
code under test. Run by hand after editing the list below; zoo.rs is committed."""
import os

HEAD = """//! Generated by gen_zoo.py. The reflected types the properties are checked on.
#![allow(dead_code, non_snake_case)]
use crate::model::*;
use crate::sx::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
"""
out = [HEAD]


class F:
    def __init__(self, ty, skip=False, attr=""):
        self.ty, self.skip, self.attr = ty, skip, attr


def fld(x):
    return x if isinstance(x, F) else F(x)


def fattr(f):
    a = (["skip"] if f.skip else []) + ([f.attr] if f.attr else [])
    return f"#[reflect({', '.join(a)})] " if a else ""


def ty_fn(t):
    return f"<{t} as Typed>::ty"


def head(bare, doc, attr):
    d = f"/// {doc}\n" if doc else ""
    if bare:
        return d + "#[derive(Reflect)]\n#[reflect(opt_out(Clone, Debug))]\n" + attr
    return d + "#[derive(Reflect, Clone, Debug)]\n" + attr


def named(name, fields, doc="", bare=False, attr="", handsym=False):
    fs = [(n, fld(t)) for n, t in fields]
    out.append(head(bare, doc, attr) + f"pub struct {name} {{\n" +
               "".join(f"    {fattr(f)}pub {n}: {f.ty},\n" for n, f in fs) + "}")
    vis = [(n, f) for n, f in fs if not f.skip]
    impls(name,
          None if handsym else f"{name} {{ " + ", ".join(f"{n}: Sym::sym()" for n, f in fs) + " }",
          "true" + "".join(f" & self.{n}.same(&o.{n})" for n, f in fs),
          "".join(f"self.{n} = Default::default(); " if f.skip else f"self.{n}.reset(); " for n, f in fs),
          "M::Struct(vec![" + ", ".join(f"({lit(n)}, self.{n}.model())" for n, f in vis) + "])",
          "K::Struct(vec![" + ", ".join(f"({lit(n)}, {ty_fn(f.ty)} as TyFn)" for n, f in vis) + "])")


def tuple_(name, fields, doc="", bare=False, attr=""):
    fs = [fld(t) for t in fields]
    out.append(head(bare, doc, attr) + f"pub struct {name}(" + ", ".join(f"{fattr(f)}pub {f.ty}" for f in fs) + ");")
    vis = [(i, f) for i, f in enumerate(fs) if not f.skip]
    impls(name,
          f"{name}(" + ", ".join("Sym::sym()" for _ in fs) + ")",
          "true" + "".join(f" & self.{i}.same(&o.{i})" for i, f in enumerate(fs)),
          "".join(f"self.{i} = Default::default(); " if f.skip else f"self.{i}.reset(); " for i, f in enumerate(fs)),
          "M::TStruct(vec![" + ", ".join(f"self.{i}.model()" for i, f in vis) + "])",
          "K::TStruct(vec![" + ", ".join(f"{ty_fn(f.ty)} as TyFn" for i, f in vis) + "])")


def unit(name):
    out.append(f"#[derive(Reflect, Clone, Debug)]\npub struct {name};")
    impls(name, name, "true", "", "M::Struct(vec![])", "K::Struct(vec![])")


def lit(n):
    return '"' + n.replace("r#", "") + '"'


def enum(name, variants, doc="", bare=False, attr="", handsym=None):
    vs = []
    for v in variants:
        vn, kind, fields = v[0], v[1], v[2]
        va = v[3] if len(v) > 3 else ""
        fs = [(n, fld(t)) for n, t in fields] if kind == "named" else [(str(i), fld(t)) for i, t in enumerate(fields)]
        vs.append((vn, kind, fs, va))
    s = head(bare, doc, attr) + f"pub enum {name} {{\n"
    for vn, kind, fs, va in vs:
        s += f"    {'#[reflect(' + va + ')] ' if va else ''}{vn}"
        if kind == "named":
            s += " { " + ", ".join(f"{fattr(f)}{n}: {f.ty}" for n, f in fs) + " }"
        elif kind == "tuple":
            s += "(" + ", ".join(f"{fattr(f)}{f.ty}" for n, f in fs) + ")"
        s += ",\n"
    out.append(s + "}")
    live = [v for v in vs if v[3] != "skip"]

    def b(n, suf):
        return "f_" + n.replace("r#", "r_") + suf

    def pat(vn, kind, fs, suf):
        if kind == "unit":
            return f"{name}::{vn}"
        if kind == "tuple":
            return f"{name}::{vn}(" + ", ".join(b(n, suf) for n, f in fs) + ")"
        return f"{name}::{vn} {{ " + ", ".join(f"{n}: {b(n, suf)}" for n, f in fs) + " }"

    def build(vn, kind, fs):
        if kind == "unit":
            return f"{name}::{vn}"
        if kind == "tuple":
            return f"{name}::{vn}(" + ", ".join("Sym::sym()" for _ in fs) + ")"
        return f"{name}::{vn} {{ " + ", ".join(f"{n}: Sym::sym()" for n, f in fs) + " }"

    sym = handsym if handsym is not None else (
        f"match choose({len(live)}) {{ " +
        "".join(f"{i if i < len(live)-1 else '_'} => {build(*v[:3])}, " for i, v in enumerate(live)) + "}")
    same = "match (self, o) { " + "".join(
        f"({pat(*v[:3], '')}, {pat(*v[:3], '2')}) => true" +
        "".join(f" & {b(n, '')}.same({b(n, '2')})" for n, f in v[2]) + ", " for v in vs) + "_ => false }"
    reset = "match self { " + "".join(
        f"{pat(*v[:3], '')} => {{ " + "".join(
            f"*{b(n, '')} = Default::default(); " if f.skip else f"{b(n, '')}.reset(); " for n, f in v[2]) + "} "
        for v in vs) + "}"
    def nm(v, n):
        return lit(n) if v[1] == "named" else '""'
    kind = {"unit": "VK::Unit", "tuple": "VK::Tuple", "named": "VK::Struct"}
    model = "match self { " + "".join(
        f"{pat(*v[:3], '')} => " + ("unreachable!()" if v[3] == "skip" else
        f"M::Enum({lit(v[0])}, {kind[v[1]]}, vec![" + ", ".join(
            f"({nm(v, n)}, {b(n, '')}.model())" for n, f in v[2] if not f.skip) + "])") + ", " for v in vs) + "}"
    ty = "K::Enum(vec![" + ", ".join(
        f"Var {{ name: {lit(v[0])}, kind: {kind[v[1]]}, fields: vec![" + ", ".join(
            f"({nm(v, n)}, {ty_fn(f.ty)} as TyFn)" for n, f in v[2] if not f.skip) + "] }" for v in live) + "])"
    impls(name, sym, same, reset, model, ty)


def impls(name, sym, same, reset, model, ty):
    sy = sym if sym is not None else f"{name}::hand_sym()"
    out.append(f"""impl Sym for {name} {{
    fn sym() -> Self {{
        {sy}
    }}
    #[allow(unused_variables)]
    fn same(&self, o: &Self) -> bool {{
        {same}
    }}
    #[allow(unused_variables)]
    fn reset(&mut self) {{
        {reset}
    }}
}}
impl Typed for {name} {{
    #[allow(unused_variables)]
    fn model(&self) -> M {{
        {model}
    }}
    fn ty() -> Ty {{
        Ty {{ name: std::any::type_name::<{name}>(), k: {ty} }}
    }}
}}""")


named("Scalars", [("w", "usize"), ("a", "u8"), ("b", "u16"), ("c", "u32"), ("d", "u64"), ("e", "u128"), ("f", "i8"),
                  ("g", "i16"), ("h", "i32"), ("i", "i64"), ("j", "i128"), ("k", "bool"), ("l", "char"), ("m", "f32"),
                  ("n", "f64"), ("o", "String")])
named("Named", [("z", "u32"), ("a", "u32"), ("m", "String"), ("k", "bool")],
      doc="declaration order differs from name order, and the first two fields have the same type")
tuple_("Pair", ["u32", "u32"])
tuple_("Triple", ["String", "i8", "Pair"])
unit("Unit")
named("Empty", [])
tuple_("EmptyTuple", [])
enum("Shape", [("Nothing", "unit", []), ("One", "tuple", ["u32"]), ("Other", "tuple", ["u32"]),
               ("Two", "tuple", ["u8", "String"]), ("Named", "named", [("y", "i8"), ("x", "i8")]),
               ("Renamed", "named", [("x", "i8"), ("y", "i8")]), ("Empty", "named", []), ("EmptyTuple", "tuple", [])])
enum("Small", [("Off", "unit", []), ("Level", "tuple", ["u8"]), ("Range", "named", [("lo", "i16"), ("hi", "i16")])],
     doc="a small enum, for use inside other types")
named("Deep", [("t", "(u8, bool)"), ("o", "Option<u16>"), ("v", "Vec<i16>"), ("arr", "[u8; 2]"),
               ("map", "BTreeMap<u8, i32>"), ("bx", "Box<Pair>"), ("e", "Small")], doc="every container in one struct")
named("Outer", [("map", "BTreeMap<String, Small>"), ("list", "Vec<Pair>"), ("opt", "Option<Named>"),
                ("arr", "[Small; 2]")], doc="containers of compound values")
named("DeepA", [("t", "(u8, bool)"), ("o", "Option<u16>"), ("arr", "[u8; 2]"), ("e", "Small")])
named("DeepB", [("v", "Vec<i16>"), ("map", "BTreeMap<u8, i32>"), ("bx", "Box<Pair>")])
named("Bare", [("p", "Pair"), ("q", "Option<i8>"), ("r", "[u16; 2]")], doc="no `Clone`, no `Debug`", bare=True)
tuple_("BareTuple", ["Named", "Vec<u8>"], bare=True)
enum("BareEnum", [("A", "named", [("f", "Pair"), ("g", "[u8; 2]")]), ("B", "tuple", ["Small", "(i8, i8)"]),
                  ("C", "unit", [])], bare=True)
enum("Listed", [("L", "tuple", ["Vec<u8>"]), ("M", "named", [("m", "BTreeMap<u8, u8>"), ("v", "Vec<Small>")]), ("N", "unit", [])],
     doc="lists and maps in an enum")
named("Tree", [("label", "i32"), ("kids", "Vec<Tree>")], doc="recursive through a list", handsym=True)
out.append("""impl Tree {
    pub fn grow(depth: usize) -> Tree {
        let n = if depth == 0 { 0 } else { choose(param(1, 2) + 1) };
        let label = Sym::sym();
        let mut kids = Vec::new();
        for _ in 0..n {
            kids.push(Tree::grow(depth - 1));
        }
        Tree { label, kids }
    }
    fn hand_sym() -> Tree {
        Tree::grow(param(3, 2))
    }
}""")
enum("Expr", [("Lit", "tuple", ["i16"]), ("Neg", "tuple", ["Box<Expr>"]),
              ("Add", "named", [("l", "Box<Expr>"), ("r", "Box<Expr>")])], doc="recursive through a box",
     handsym="Expr::grow(param(3, 2))")
out.append("""impl Expr {
    pub fn grow(depth: usize) -> Expr {
        match if depth == 0 { 0 } else { choose(3) } {
            0 => Expr::Lit(Sym::sym()),
            1 => Expr::Neg(Box::new(Expr::grow(depth - 1))),
            _ => Expr::Add { l: Box::new(Expr::grow(depth - 1)), r: Box::new(Expr::grow(depth - 1)) },
        }
    }
}""")
named("SkipNamed", [("hidden", F("u32", True)), ("a", "u32"), ("inner", F("u8", True)), ("b", "u8")],
      doc="fields the reflection does not see, in front of and between fields it does see")
tuple_("SkipTuple", [F("u32", True), "u32", F("u8", True), "u8"])
enum("SkipEnum", [("T", "tuple", [F("u32", True), "u32", F("u8", True), "u8"]),
                  ("S", "named", [("hidden", F("u32", True)), ("a", "u32"), ("inner", F("u8", True)), ("b", "u8")]),
                  ("Gone", "unit", [], "skip"), ("Kept", "unit", [])])
named("Words", [("name", "u8"), ("index", "u8"), ("value", "u8"), ("self_", "u8"), ("ty", "u8"), ("field", "u8")],
      doc="field names that generated code might use itself")
enum("WordsEnum", [("V", "named", [("name", "u8"), ("index", "u8"), ("value", "u8"), ("enum_", "u8"), ("iter", "u8"),
                                   ("ty", "u8")]),
                   ("W", "named", [("value", "u8"), ("name", "u8")])])
named("Wide", [("f%02d" % i, "u8") for i in range(12)], doc="many fields of the same type")
tuple_("WideTuple", ["u8"] * 12)
named("CaseNames", [("a", "u32"), ("A", "u32"), ("aa", "u32"), ("A_", "u8")], attr="#[allow(non_snake_case)]\n",
      doc="names that differ in case, or in their length")
enum("CaseEnum", [("V", "named", [("x", "u8"), ("X", "u8"), ("xx", "u8")]), ("v", "named", [("x", "u8"), ("X", "u8")]),
                  ("VV", "tuple", ["u8"]), ("Vv", "tuple", ["u8"]), ("Vvv", "unit", [])],
     attr="#[allow(non_snake_case, non_camel_case_types)]\n")
out.append("""fn double(v: &dyn Reflect) -> Option<u32> {
    u32::from_reflect(v).map(|x| x.wrapping_mul(2))
}
/// fields with their own conversion
#[derive(Reflect, Clone, Debug)]
pub struct WithFn {
    pub a: u32,
    #[reflect(from_reflect_with(double))]
    pub b: u32,
    pub c: u32,
}
#[derive(Reflect, Clone, Debug)]
pub struct WithFnTuple(#[reflect(from_reflect_with(double))] pub u32, pub u32);
#[derive(Reflect, Clone, Debug)]
pub enum WithFnEnum {
    T(u32, #[reflect(from_reflect_with(double))] u32),
    S {
        #[reflect(from_reflect_with(double))]
        a: u32,
        b: u32,
    },
}
#[derive(Reflect, Clone, Debug)]
pub struct Gen<T>
where
    T: FromReflect + DescribeType + Clone + std::fmt::Debug,
{
    pub inner: T,
    pub list: Vec<T>,
}
impl<T: Sym + FromReflect + DescribeType + Clone + std::fmt::Debug> Sym for Gen<T> {
    fn sym() -> Self {
        Gen { inner: T::sym(), list: Sym::sym() }
    }
    fn same(&self, o: &Self) -> bool {
        self.inner.same(&o.inner) & self.list.same(&o.list)
    }
}
impl<T: Typed + FromReflect + DescribeType + Clone + std::fmt::Debug> Typed for Gen<T> {
    fn model(&self) -> M {
        M::Struct(vec![("inner", self.inner.model()), ("list", self.list.model())])
    }
    fn ty() -> Ty {
        Ty {
            name: std::any::type_name::<Self>(),
            k: K::Struct(vec![("inner", T::ty as TyFn), ("list", <Vec<T> as Typed>::ty as TyFn)]),
        }
    }
}
/// a type the reflection can't look into
#[derive(Clone, Debug)]
pub struct Hidden(pub u8);
impl DescribeType for Hidden {
    fn build(graph: &mut mirror_mirror::type_info::graph::TypeGraph) -> mirror_mirror::type_info::graph::NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            mirror_mirror::type_info::graph::OpaqueNode::new::<Self>(Default::default(), graph)
        })
    }
}
impl Reflect for Hidden {
    fn type_descriptor(&self) -> std::borrow::Cow<'static, TypeDescriptor> {
        <Self as DescribeType>::type_descriptor()
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn as_reflect(&self) -> &dyn Reflect {
        self
    }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
        self
    }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned {
        ReflectOwned::Opaque(self)
    }
    fn reflect_ref(&self) -> ReflectRef<'_> {
        ReflectRef::Opaque(self)
    }
    fn reflect_mut(&mut self) -> ReflectMut<'_> {
        ReflectMut::Opaque(self)
    }
    fn patch(&mut self, value: &dyn Reflect) {
        if let Some(x) = value.downcast_ref::<Self>() {
            *self = x.clone();
        }
    }
    fn to_value(&self) -> Value {
        Value::from(self.0)
    }
    fn clone_reflect(&self) -> Box<dyn Reflect> {
        Box::new(self.clone())
    }
    fn debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hidden")
    }
}
impl FromReflect for Hidden {
    fn from_reflect(r: &dyn Reflect) -> Option<Self> {
        r.downcast_ref::<Self>().cloned()
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct HasHidden {
    pub a: u8,
    pub h: Hidden,
    pub b: u8,
}""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "zoo.rs"), "w").write("\n".join(out) + "\n")
