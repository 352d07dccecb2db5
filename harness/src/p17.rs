//! P17: visiting reaches every scalar once, in order, each through the method of its kind, and stops at the first error
use crate::model::*;
use crate::long::*;
use crate::sx::*;
use crate::zoo::*;
use mirror_mirror::try_visit::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

#[derive(Clone)]
enum L {
    S(Sc),
    /// type name, content
    Opaque(String, Sc),
}
/// what there is to visit
fn leaves(m: &M, t: &Ty, out: &mut Vec<L>) {
    match (m, &t.k) {
        (M::S(s), K::Scalar(_)) => out.push(L::S(s.clone())),
        (M::S(s), K::NonZero(_)) => out.push(L::Opaque(t.name.to_string(), s.clone())),
        (M::Struct(f), K::Struct(g)) => {
            for i in 0..f.len() {
                leaves(&f[i].1, &(g[i].1)(), out);
            }
        }
        (M::TStruct(f), K::TStruct(g)) | (M::Tuple(f), K::Tuple(g)) => {
            for i in 0..f.len() {
                leaves(&f[i], &g[i](), out);
            }
        }
        (M::Enum(n, _, f), K::Enum(v)) => {
            for v in v {
                if v.name == *n {
                    for i in 0..f.len() {
                        leaves(&f[i].1, &(v.fields[i].1)(), out);
                    }
                }
            }
        }
        (M::List(f), K::List(t)) => {
            for x in f {
                leaves(x, &t(), out);
            }
        }
        (M::Array(f), K::Array(t, _)) => {
            for x in f {
                leaves(x, &t(), out);
            }
        }
        (M::Map(f), K::Map(a, b)) => {
            for (x, y) in f {
                leaves(x, &a(), out);
                leaves(y, &b(), out);
            }
        }
        _ => unreachable!(),
    }
}
struct Log {
    out: Vec<L>,
    /// fail at this visit
    stop: usize,
}
impl Log {
    fn add(&mut self, s: Sc) -> Result<(), usize> {
        self.out.push(L::S(s));
        self.end()
    }
    fn end(&self) -> Result<(), usize> {
        if self.out.len() > self.stop {
            Err(self.out.len())
        } else {
            Ok(())
        }
    }
}
macro_rules! visits {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, value: $t) -> Result<(), usize> { self.add(value.sc()) })* };
}
impl TryVisit for Log {
    type Error = usize;
    visits!(try_visit_usize usize, try_visit_u8 u8, try_visit_u16 u16, try_visit_u32 u32, try_visit_u64 u64, try_visit_u128 u128,
        try_visit_i8 i8, try_visit_i16 i16, try_visit_i32 i32, try_visit_i64 i64, try_visit_i128 i128,
        try_visit_bool bool, try_visit_char char, try_visit_f32 f32, try_visit_f64 f64);
    fn try_visit_string(&mut self, value: &String) -> Result<(), usize> {
        self.add(value.sc())
    }
    fn try_visit_opaque(&mut self, value: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), usize> {
        // what the value holds, and what the description says it is
        let s = match value.as_scalar() {
            Some(s) => scalar_ref(s),
            None => match value.to_value().as_scalar() {
                Some(s) => scalar_ref(s),
                None => {
                    check(false, 1);
                    return Err(0);
                }
            },
        };
        self.out.push(L::Opaque(ty.type_name().to_string(), s));
        self.end()
    }
}
fn same(a: &L, b: &L) -> bool {
    match (a, b) {
        (L::S(a), L::S(b)) => a.eq(b),
        (L::Opaque(n, a), L::Opaque(k, b)) => str_eq(n, k) && a.eq(b),
        _ => false,
    }
}
fn run(v: &dyn Reflect, t: Type<'_>, want: &[L]) {
    let stop: usize = Sym::sym();
    let mut log = Log { out: vec![], stop };
    let r = try_visit(&mut log, v, t);
    let n = want.len();
    if stop < n {
        check(r == Err(stop + 1), 2);
        check(log.out.len() == stop + 1, 3);
    } else {
        check(r == Ok(()), 4);
        check(log.out.len() == n, 5);
    }
    let mut ok = true;
    for i in 0..log.out.len() {
        ok &= i < n && same(&log.out[i], &want[i]);
    }
    check(ok, 6);
}
fn visited<T: Sym + Typed + Reflect + DescribeType>() {
    let x = T::sym();
    let mut want = vec![];
    leaves(&x.model(), &T::ty(), &mut want);
    let d = <T as DescribeType>::type_descriptor();
    match choose(3) {
        0 => run(&x, d.get_type(), &want),
        1 => run(&x.to_value(), d.get_type(), &want),
        _ => run(&*x.clone_reflect(), x.type_descriptor().get_type(), &want),
    }
    cover(0);
}

entries! {
    p17_long_list: visited::<LongList>();
    p17_long_map: visited::<LongMap>();
    p17_long_text: visited::<LongText>();
    p17_chain: visited::<Chain>();
    p17_scalars: visited::<Scalars>();
    p17_named: visited::<Named>();
    p17_triple: visited::<Triple>();
    p17_unit: visited::<Unit>();
    p17_shape: visited::<Shape>();
    p17_deep: visited::<Deep>();
    p17_tree: visited::<Tree>();
    p17_expr: visited::<Expr>();
    p17_listed: visited::<Listed>();
    p17_bare_enum: visited::<BareEnum>();
    p17_skip_named: visited::<SkipNamed>();
    p17_skip_tuple: visited::<SkipTuple>();
    p17_skip_enum: visited::<SkipEnum>();
    p17_words_enum: visited::<WordsEnum>();
    p17_case: visited::<CaseNames>();
    p17_case_enum: visited::<CaseEnum>();
    p17_wide: visited::<Wide>();
    p17_wide_tuple: visited::<WideTuple>();
    p17_gen: visited::<Gen<Pair>>();
    p17_gen_tuple: visited::<GenT<u16, 2>>();
    p17_gen_enum: visited::<GenE<u16, 1>>();
    p17_map_str: visited::<BTreeMap<String, Small>>();
    p17_map_map: visited::<BTreeMap<i8, BTreeMap<bool, u8>>>();
    p17_vec: visited::<Vec<Option<Pair>>>();
    p17_arrays: visited::<[[u8; 2]; 2]>();
    p17_result: visited::<Result<Pair, String>>();
    p17_boxed: visited::<Box<Option<Box<u64>>>>();
    p17_range: visited::<std::ops::Range<u32>>();
    p17_nz: visited::<(std::num::NonZeroU8, u8, Option<std::num::NonZeroI64>, Vec<std::num::NonZeroU128>)>();
    p17_tuple0: visited::<()>();
    p17_tuple3: visited::<(u8, Pair, (i8, bool))>();
    p17_tuple16: visited::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>();
    p17_mat3: visited::<glam::Mat3>();
    p17_color: visited::<macaw::ColorRgba8>();
}
