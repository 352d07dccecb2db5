//! P22: generic values built step by step, from iterators or from reflected values hold exactly what was put in, in order
use crate::long::*;
use crate::model::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::{FromReflect, Reflect, ReflectRef, ScalarMut, ScalarOwned, ScalarRef, Struct, Tuple, TupleStruct, Enum, Value};
use std::collections::BTreeMap;

/// a struct as a list of named fields; setting a field again keeps its place
#[derive(Clone)]
struct Fields(Vec<(String, u8)>);
impl Fields {
    fn set(&mut self, n: &str, v: u8) {
        for f in &mut self.0 {
            if str_eq(&f.0, n) {
                f.1 = v;
                return;
            }
        }
        self.0.push((n.to_owned(), v));
    }
    fn get(&self, n: &str) -> Option<u8> {
        self.0.iter().find(|f| str_eq(&f.0, n)).map(|f| f.1)
    }
}
fn num(x: Option<&dyn Reflect>) -> Option<u8> {
    match x?.reflect_ref() {
        ReflectRef::Scalar(ScalarRef::u8(x)) => Some(x),
        _ => None,
    }
}
fn holds(s: &dyn Struct, m: &Fields, id: u32) {
    check(s.fields_len() == m.0.len(), id);
    let mut it = s.fields();
    check(it.len() == m.0.len(), id + 1);
    for (i, (n, v)) in m.0.iter().enumerate() {
        match it.next() {
            Some((k, x)) => check(str_eq(k, n) && num(Some(x)) == Some(*v), id + 2),
            None => check(false, id + 3),
        }
        check(num(s.field(n)) == Some(*v) && num(s.field_at(i)) == Some(*v), id + 4);
        check(s.name_at(i).map_or(false, |k| str_eq(k, n)), id + 5);
    }
    check(it.next().is_none() && s.field_at(m.0.len()).is_none() && s.name_at(m.0.len()).is_none(), id + 6);
    let k = ascii(1);
    check(num(s.field(&k)) == m.get(&k) && s.field(&k).is_some() == m.get(&k).is_some(), id + 7);
}
fn struct_ops() {
    let mut m = Fields(Vec::new());
    let mut s = match choose(3) {
        0 => StructValue::new(),
        1 => StructValue::default(),
        _ => StructValue::with_capacity(choose(3)),
    };
    for _ in 0..param(6, 3) {
        let (k, v) = (ascii(1), any_u8());
        match choose(4) {
            0 => {
                s = s.with_field(k.clone(), v);
                m.set(&k, v);
            }
            1 => {
                s.set_field(&*k, v);
                m.set(&k, v);
            }
            2 => {
                if let Some(x) = s.field_mut(&k) {
                    x.patch(&v);
                }
                if m.get(&k).is_some() {
                    m.set(&k, v);
                }
            }
            _ => {
                let i = choose(3);
                if let Some(x) = s.field_at_mut(i) {
                    x.patch(&v);
                }
                if let Some(f) = m.0.get_mut(i) {
                    f.1 = v;
                }
            }
        }
    }
    holds(&s, &m, 1);
    cover(0);
}
/// every field once when iterating for changes, in the order they were first set
fn struct_mut() {
    let mut m = Fields(Vec::new());
    let mut s = StructValue::new();
    for _ in 0..3 {
        let (k, v) = (ascii(1), any_u8());
        s.set_field(k.clone(), v);
        m.set(&k, v);
    }
    {
        let mut it = s.fields_mut();
        for (n, v) in &mut m.0 {
            match it.next() {
                Some((k, x)) => {
                    check(str_eq(k, n) && num(Some(x.as_reflect())) == Some(*v), 20);
                    let w = any_u8();
                    x.patch(&w);
                    *v = w;
                }
                None => check(false, 21),
            }
        }
        check(it.next().is_none(), 22);
    }
    holds(&s, &m, 1);
    cover(0);
}
fn struct_collect() {
    let n = choose(param(6, 3) + 1);
    let f: Vec<(String, u8)> = (0..n).map(|_| (ascii(1), any_u8())).collect();
    let mut m = Fields(Vec::new());
    for (k, v) in &f {
        m.set(k, *v);
    }
    let s: StructValue = f.into_iter().collect();
    holds(&s, &m, 1);
    // the same in every form
    match choose(4) {
        0 => match StructValue::from_reflect(&s) {
            Some(t) => {
                check(t == s, 10);
                holds(&t, &m, 11);
            }
            None => check(false, 20),
        },
        1 => match Value::from(s).as_struct() {
            Some(t) => holds(t, &m, 21),
            None => check(false, 30),
        },
        2 => match s.to_value().as_struct() {
            Some(t) => holds(t, &m, 31),
            None => check(false, 40),
        },
        _ => holds(&s.clone(), &m, 41),
    }
    cover(0);
}
fn row(x: &[u8], len: usize, get: &dyn Fn(usize) -> Option<u8>, id: u32) {
    check(len == x.len(), id);
    for (i, v) in x.iter().enumerate() {
        check(get(i) == Some(*v), id + 1);
    }
    check(get(x.len()).is_none(), id + 2);
}
fn row_is(t: &dyn Tuple, x: &[u8], id: u32) {
    row(x, t.fields_len(), &|i| num(t.field_at(i)), id);
    check(t.fields().len() == x.len(), id + 3);
    let mut i = 0;
    for f in t.fields() {
        check(i < x.len() && num(Some(f)) == Some(x[i]), id + 4);
        i += 1;
    }
    check(i == x.len(), id + 5);
}
fn row_struct_is(t: &dyn TupleStruct, x: &[u8], id: u32) {
    row(x, t.fields_len(), &|i| num(t.field_at(i)), id);
    check(t.fields().len() == x.len(), id + 3);
    let mut i = 0;
    for f in t.fields() {
        check(i < x.len() && num(Some(f)) == Some(x[i]), id + 4);
        i += 1;
    }
    check(i == x.len(), id + 5);
}
fn tuple_ops() {
    let n = choose(4);
    let x: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let t: TupleValue = if flip() {
        x.iter().copied().collect()
    } else {
        let mut t = match choose(3) {
            0 => TupleValue::new(),
            1 => TupleValue::default(),
            _ => TupleValue::with_capacity(choose(3)),
        };
        for v in &x {
            if flip() {
                t = t.with_field(*v);
            } else {
                t.push_field(*v);
            }
        }
        t
    };
    match choose(4) {
        0 => row_is(&t, &x, 1),
        1 => match TupleValue::from_reflect(&t) {
            Some(u) => {
                check(u == t, 10);
                row_is(&u, &x, 11);
            }
            None => check(false, 20),
        },
        2 => match Value::from(t).as_tuple() {
            Some(t) => row_is(t, &x, 21),
            None => check(false, 30),
        },
        _ => match t.to_value().as_tuple() {
            Some(t) => row_is(t, &x, 31),
            None => check(false, 40),
        },
    }
    cover(0);
}
fn tuple_struct_ops() {
    let n = choose(4);
    let x: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let t: TupleStructValue = if flip() {
        x.iter().copied().collect()
    } else {
        let mut t = match choose(3) {
            0 => TupleStructValue::new(),
            1 => TupleStructValue::default(),
            _ => TupleStructValue::with_capacity(choose(3)),
        };
        for v in &x {
            if flip() {
                t = t.with_field(*v);
            } else {
                t.push_field(*v);
            }
        }
        t
    };
    match choose(4) {
        0 => row_struct_is(&t, &x, 1),
        1 => match TupleStructValue::from_reflect(&t) {
            Some(u) => {
                check(u == t, 10);
                row_struct_is(&u, &x, 11);
            }
            None => check(false, 20),
        },
        2 => match Value::from(t).as_tuple_struct() {
            Some(t) => row_struct_is(t, &x, 21),
            None => check(false, 30),
        },
        _ => match t.to_value().as_tuple_struct() {
            Some(t) => row_struct_is(t, &x, 31),
            None => check(false, 40),
        },
    }
    cover(0);
}
fn enum_is(e: &dyn Enum, name: &str, f: &Fields, x: &[u8], kind: VariantKind, id: u32) {
    check(str_eq(e.variant_name(), name), id);
    check(e.variant_kind() == kind, id + 1);
    let len = if kind == VariantKind::Struct { f.0.len() } else { x.len() };
    check(e.fields_len() == len && e.fields().count() == len, id + 2);
    for (i, y) in e.fields().enumerate() {
        match y {
            VariantField::Struct(n, v) => check(
                kind == VariantKind::Struct
                    && str_eq(&f.0[i].0, n)
                    && num(Some(v)) == Some(f.0[i].1)
                    && num(e.field(n)) == Some(f.0[i].1)
                    && num(e.field_at(i)) == Some(f.0[i].1),
                id + 3,
            ),
            VariantField::Tuple(v) => check(kind == VariantKind::Tuple && num(Some(v)) == Some(x[i]) && num(e.field_at(i)) == Some(x[i]), id + 4),
        }
    }
    check(e.field_at(len).is_none(), id + 5);
}
fn enum_ops() {
    let name = ascii(1);
    let mut f = Fields(Vec::new());
    let mut x = Vec::new();
    let (e, kind) = match choose(3) {
        0 => (EnumValue::new_unit_variant(name.clone()), VariantKind::Unit),
        1 => {
            let mut b = if flip() {
                EnumValue::new_struct_variant(name.clone())
            } else {
                EnumValue::new_struct_variant_with_capacity(&*name, choose(3))
            };
            for _ in 0..choose(3) {
                let (k, v) = (ascii(1), any_u8());
                if flip() {
                    b = b.with_struct_field(k.clone(), v);
                } else {
                    b.set_struct_field(&*k, v);
                }
                f.set(&k, v);
            }
            let mut e = b.finish();
            // more once it's built
            if flip() {
                let (k, v) = (ascii(1), any_u8());
                if flip() {
                    e = e.with_struct_field(k.clone(), v);
                } else {
                    e.set_struct_field(&*k, v);
                }
                f.set(&k, v);
            }
            (e, VariantKind::Struct)
        }
        _ => {
            let mut b = if flip() {
                EnumValue::new_tuple_variant(&*name)
            } else {
                EnumValue::new_tuple_variant_with_capacity(name.clone(), choose(3))
            };
            for _ in 0..choose(3) {
                let v = any_u8();
                if flip() {
                    b = b.with_tuple_field(v);
                } else {
                    b.push_tuple_field(v);
                }
                x.push(v);
            }
            let mut e = b.finish();
            if flip() {
                let v = any_u8();
                if flip() {
                    e = e.with_tuple_field(v);
                } else {
                    e.push_tuple_field(v);
                }
                x.push(v);
            }
            (e, VariantKind::Tuple)
        }
    };
    match choose(4) {
        0 => enum_is(&e, &name, &f, &x, kind, 1),
        1 => match EnumValue::from_reflect(&e) {
            Some(u) => {
                check(u == e, 10);
                enum_is(&u, &name, &f, &x, kind, 11);
            }
            None => check(false, 20),
        },
        2 => match Value::from(e).as_enum() {
            Some(e) => enum_is(e, &name, &f, &x, kind, 21),
            None => check(false, 30),
        },
        _ => match e.to_value().as_enum() {
            Some(e) => enum_is(e, &name, &f, &x, kind, 31),
            None => check(false, 40),
        },
    }
    cover(0);
}
/// the generic value of any reflected value: of its kind and content, and only of its kind
fn converted<T: Sym + Typed + Reflect>() {
    let x = T::sym();
    let m = x.model();
    let by = |o: Option<Value>, kind: bool, id| check(o.is_some() == kind && o.map_or(true, |v| agrees(&v, &m)), id);
    match choose(8) {
        0 => by(Some(Value::from(x.as_reflect())), true, 1),
        1 => by(Value::from_reflect(&x), true, 2),
        2 => by(StructValue::from_reflect(&x).map(Value::from), matches!(m, M::Struct(_)), 3),
        3 => by(TupleStructValue::from_reflect(&x).map(Value::from), matches!(m, M::TStruct(_)), 4),
        4 => by(TupleValue::from_reflect(&x).map(Value::from), matches!(m, M::Tuple(_)), 5),
        5 => by(EnumValue::from_reflect(&x).map(Value::from), matches!(m, M::Enum(..)), 6),
        6 => by(Vec::<Value>::from_reflect(&x).map(Value::List), matches!(m, M::List(_)), 7),
        _ => by(BTreeMap::<Value, Value>::from_reflect(&x).map(Value::Map), matches!(m, M::Map(_)), 8),
    }
    cover(0);
}
fn scalars() {
    macro_rules! from {
        ($($t:ident ($($r:tt)?))*) => {
            match choose(17) {
                $(i if i == Tag::$t as usize => {
                    let x = <$t as Sym>::sym();
                    let s = x.sc();
                    check(agrees(&Value::from(x.clone()), &M::S(s.clone())), 1);
                    check(scalar_ref(ScalarRef::from($($r)? x.clone())).eq(&s), 2);
                    check(agrees(ScalarOwned::from(x.clone()).as_reflect(), &M::S(s.clone())), 3);
                    let mut y = <$t as Sym>::sym();
                    let t = y.sc();
                    check(agrees(ScalarMut::from(&mut y).as_reflect(), &M::S(t)), 4);
                    ScalarMut::from(&mut y).as_reflect_mut().patch(&x);
                    check(y.same(&x), 5);
                })*
                _ => {
                    let s = ascii(2);
                    check(agrees(&Value::from(&*s), &M::S(s.sc())), 6);
                }
            }
        };
    }
    from!(usize() u8() u16() u32() u64() u128() i8() i16() i32() i64() i128() bool() char() f32() f64() String(&));
    cover(0);
}
/// many parts
fn many() {
    let n = [13, 20, 40][choose(3)];
    let x = any_u8();
    let name = |i: usize| format!("f{}", i * 7 % n);
    match choose(4) {
        0 | 1 => {
            let mut m = Fields(Vec::new());
            let mut s = StructValue::with_capacity(choose(2) * n);
            for i in 0..n {
                m.set(&name(i), x ^ i as u8);
                s.set_field(name(i), x ^ i as u8);
            }
            // once more, somewhere
            let i = choose(2) * (n - 1);
            m.set(&name(i), x);
            s.set_field(name(i), x);
            holds(&s, &m, 60);
            match Value::from(s).as_struct() {
                Some(s) => holds(s, &m, 70),
                None => check(false, 80),
            }
        }
        2 => {
            let mut s = TupleValue::new();
            for i in 0..n {
                s.push_field(x ^ i as u8);
            }
            check(s.fields_len() == n && s.fields().count() == n && s.field_at(n).is_none(), 81);
            for i in 0..n {
                check(num(s.field_at(i)) == Some(x ^ i as u8), 82);
            }
        }
        _ => {
            let mut s = TupleStructValue::new();
            for i in 0..n {
                s.push_field(x ^ i as u8);
            }
            check(s.fields_len() == n && s.fields().count() == n && s.field_at(n).is_none(), 83);
            for i in 0..n {
                check(num(s.field_at(i)) == Some(x ^ i as u8), 84);
            }
        }
    }
    cover(0);
}

entries! {
    p22_many: many();
    p22_struct_ops: struct_ops();
    p22_struct_mut: struct_mut();
    p22_struct_collect: struct_collect();
    p22_tuple_ops: tuple_ops();
    p22_tuple_struct_ops: tuple_struct_ops();
    p22_enum_ops: enum_ops();
    p22_c_named: converted::<Named>();
    p22_c_triple: converted::<Triple>();
    p22_c_shape: converted::<Shape>();
    p22_c_skip_enum: converted::<SkipEnum>();
    p22_c_deep: converted::<Deep>();
    p22_c_tuple: converted::<(u8, Pair)>();
    p22_c_list: converted::<Vec<Option<u8>>>();
    p22_c_array: converted::<[u8; 2]>();
    p22_c_map: converted::<BTreeMap<u8, Pair>>();
    p22_c_scalar: converted::<u8>();
    p22_c_string: converted::<String>();
    p22_c_tree: converted::<Tree>();
    p22_scalars: scalars();
}
