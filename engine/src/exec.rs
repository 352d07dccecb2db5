//! Symbolic interpreter.
//!
//! Pointers are concrete (object id in the upper 32 bits, offset in the lower), data bytes may
//! be symbolic. A branch on a symbolic condition forks the state; every feasibility question
//! goes to the SMT solver. Nothing is approximated silently: whatever the engine cannot execute
//! ends the run as inconclusive.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[path = "threads.rs"]
mod threads;
use threads::*;

const FUNC_ID: u64 = 1;
const GLOBAL_ID: u64 = 0x100;
const STACK_ID: u64 = 0x10_0000;
const HEAP_ID: u64 = 0x1000_0000;

#[derive(Clone)]
pub struct Obj {
    bytes: Vec<u8>,
    /// 0 = concrete, otherwise expression id + 1
    sym: Vec<u32>,
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj {
            bytes: vec![0; n],
            sym: Vec::new(),
        }
    }
}

#[derive(Clone)]
struct Mem {
    /// one per thread
    stacks: Vec<Vec<Rc<Obj>>>,
    heap: Vec<Option<Rc<Obj>>>,
    globals: HashMap<u32, Rc<Obj>>,
}

#[derive(Clone)]
struct Frame {
    func: Rc<Func>,
    block: u32,
    idx: u32,
    prev: u32,
    regs: Vec<Val>,
    stack_mark: usize,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    model: Rc<Vec<u128>>,
    known: Rc<HashMap<E, u128>>,
    inputs: Vec<(E, u32)>,
    obs: Vec<Val>,
    steps: u64,
    depth_forks: u32,
    keys: Rc<Vec<Val>>,
    th: Threads,
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// path finished normally
    Done,
    /// path condition contradicted an assumption
    Infeasible,
    /// property violated on this path (already recorded)
    Violation,
    /// the engine gave up
    Inconclusive(String),
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub inputs: Vec<(u32, u128)>,
    pub stack: Vec<String>,
}

pub struct PathRec {
    pub inputs: Vec<(u32, u128)>,
    pub obs: Vec<u128>,
}

pub struct Limits {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_enum: usize,
    pub time_s: f64,
    pub keep_paths: usize,
}

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub solver: Solver,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    func_ids: HashMap<String, u64>,
    func_names: Vec<String>,
    global_ids: HashMap<String, u32>,
    global_objs: Vec<Option<Rc<Obj>>>,
    global_names: Vec<String>,
    work: Vec<State>,
    /// what the choices of the schedule and the assumptions allow, and the paths that have ended well
    within: Vec<E>,
    ended: Vec<E>,
    pub schedules: u64,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub lim: Limits,
    pub params: HashMap<u32, u64>,
    pub paths_done: u64,
    pub paths_infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub covers: BTreeMap<u32, u64>,
    /// assertions whose condition the term rewriter reduced to a constant
    pub asserts_folded: u64,
    pub asserts: BTreeMap<u32, u64>,
    pub dbg_seen: HashSet<u32>,
    pub fn_seen: BTreeSet<String>,
    pub recs: Vec<PathRec>,
    pub max_inputs: usize,
    pub trace: bool,
    start: Instant,
    deadline_hit: bool,
    rng: u64,
}

type R<T> = Result<T, Stop>;

fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Inconclusive(s.into()))
}

/// wider integers than the expressions have
fn narrow(t: &Ty) -> R<()> {
    match t {
        Ty::Int(w) if *w > 128 => inc(format!("integers of {w} bits")),
        Ty::Vector(t, _) => narrow(t),
        _ => Ok(()),
    }
}

impl Engine {
    pub fn new(m: Module, solver: Solver, lim: Limits) -> Engine {
        Engine {
            m,
            ar: Arena::new(),
            solver,
            funcs: HashMap::new(),
            func_ids: HashMap::new(),
            func_names: Vec::new(),
            global_ids: HashMap::new(),
            global_objs: Vec::new(),
            global_names: Vec::new(),
            work: Vec::new(),
            violations: Vec::new(),
            inconclusive: Vec::new(),
            lim,
            params: HashMap::new(),
            within: Vec::new(),
            ended: Vec::new(),
            schedules: 0,
            paths_done: 0,
            paths_infeasible: 0,
            forks: 0,
            steps: 0,
            covers: BTreeMap::new(),
            asserts_folded: 0,
            asserts: BTreeMap::new(),
            dbg_seen: HashSet::new(),
            fn_seen: BTreeSet::new(),
            recs: Vec::new(),
            max_inputs: 0,
            trace: false,
            start: Instant::now(),
            deadline_hit: false,
            rng: 0x9e3779b97f4a7c15,
        }
    }

    // ---------------------------------------------------------------- values

    fn e(&mut self, v: &Val) -> E {
        match v {
            Val::C(x, w) => self.ar.constant(*x, *w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expression"),
        }
    }

    fn w(&self, v: &Val) -> u32 {
        match v {
            Val::C(_, w) => *w,
            Val::S(e) => self.ar.width(*e),
            Val::A(_) => panic!("width of aggregate"),
        }
    }

    fn v(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(x) => Val::C(x, self.ar.width(e)),
            None => Val::S(e),
        }
    }

    fn bin(&mut self, op: Op, a: &Val, b: &Val) -> Val {
        if let (Val::C(x, w), Val::C(y, _)) = (a, b) {
            return Val::C(fold_bin(op, *x, *y, *w), *w);
        }
        let (x, y) = (self.e(a), self.e(b));
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }

    fn cmp(&mut self, op: Cmp, a: &Val, b: &Val) -> Val {
        if let (Val::C(x, w), Val::C(y, _)) = (a, b) {
            return Val::C(fold_cmp(op, *x, *y, *w) as u128, 1);
        }
        let (x, y) = (self.e(a), self.e(b));
        let r = self.ar.cmp(op, x, y);
        self.v(r)
    }

    fn not(&mut self, a: &Val) -> Val {
        let w = self.w(a);
        self.bin(Op::Xor, a, &Val::C(mask(w), w))
    }

    fn ite(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(x, _) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            _ => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let v = x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, p, q)).collect();
                    return Val::A(Rc::new(v));
                }
                let (ce, x, y) = (self.e(c), self.e(a), self.e(b));
                let r = self.ar.ite(ce, x, y);
                self.v(r)
            }
        }
    }

    fn zext(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::C(x, _) => Val::C(*x, w),
            _ => {
                let x = self.e(a);
                let r = self.ar.zext(x, w);
                self.v(r)
            }
        }
    }

    fn sxt(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::C(x, wa) => Val::C(sext(*x, *wa) as u128 & mask(w), w),
            _ => {
                let x = self.e(a);
                let r = self.ar.sext(x, w);
                self.v(r)
            }
        }
    }

    fn trunc(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::C(x, _) => Val::C(*x & mask(w), w),
            _ => {
                let x = self.e(a);
                let r = self.ar.extract(0, w, x);
                self.v(r)
            }
        }
    }

    fn extract(&mut self, a: &Val, lo: u32, w: u32) -> Val {
        match a {
            Val::C(x, _) => Val::C((*x >> lo) & mask(w), w),
            _ => {
                let x = self.e(a);
                let r = self.ar.extract(lo, w, x);
                self.v(r)
            }
        }
    }

    fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Array(t, n) | Ty::Vector(t, n) => {
                Val::A(Rc::new((0..*n).map(|_| self.zero(t)).collect()))
            }
            Ty::Void | Ty::Token | Ty::Metadata | Ty::Label | Ty::Opaque => Val::C(0, 1),
            t => Val::C(0, t.width()),
        }
    }

    // ---------------------------------------------------------------- constants and globals

    fn func_addr(&mut self, name: &str) -> u64 {
        if let Some(a) = self.func_ids.get(name) {
            return *a;
        }
        let i = self.func_names.len() as u64;
        self.func_names.push(name.to_string());
        let a = (FUNC_ID << 32) + (i + 1) * 16;
        self.func_ids.insert(name.to_string(), a);
        a
    }

    fn global_addr(&mut self, name: &str) -> u64 {
        let name = self.m.aliases.get(name).copied().unwrap_or(name).to_string();
        if self.m.globals.contains_key(name.as_str()) {
            let id = match self.global_ids.get(&name) {
                Some(i) => *i,
                None => {
                    let i = self.global_objs.len() as u32;
                    self.global_objs.push(None);
                    self.global_names.push(name.clone());
                    self.global_ids.insert(name, i);
                    i
                }
            };
            return (GLOBAL_ID + id as u64) << 32;
        }
        self.func_addr(&name)
    }

    fn cst(&mut self, ty: &TyRef, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => Val::C(*v & mask(ty.width()), ty.width()),
            Cst::FloatBits(v) => Val::C(*v, ty.width()),
            Cst::Zero | Cst::Undef => self.zero(ty),
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128, 8)).collect())),
            Cst::Agg(l) => {
                let v = l.iter().map(|(t, c)| self.cst(t, c)).collect();
                Val::A(Rc::new(v))
            }
            Cst::Splat(b) => {
                let v = self.cst(&b.0, &b.1);
                let n = match &**ty {
                    Ty::Vector(_, n) | Ty::Array(_, n) => *n as usize,
                    _ => panic!("splat"),
                };
                Val::A(Rc::new(vec![v; n]))
            }
            Cst::Global(n) => Val::C(self.global_addr(n) as u128, 64),
            Cst::Gep(t, base, idx) => {
                let pt = Rc::new(Ty::Ptr);
                let mut a = match self.cst(&pt, base) {
                    Val::C(x, _) => x as u64,
                    _ => panic!(),
                };
                let mut cur: Option<TyRef> = None;
                for (it, c) in idx {
                    let (x, w) = match self.cst(it, c) {
                        Val::C(x, w) => (x, w),
                        _ => panic!(),
                    };
                    let i = sext(x, w) as i64;
                    match &cur {
                        None => {
                            a = a.wrapping_add((t.size() as i64).wrapping_mul(i) as u64);
                            cur = Some(t.clone());
                        }
                        Some(ct) => {
                            a = a.wrapping_add(ct.field_offset(i as usize));
                            cur = Some(ct.field(i as usize));
                        }
                    }
                }
                Val::C(a as u128, 64)
            }
            Cst::Cast(t, c, t2) => {
                let v = self.cst(t, c);
                match v {
                    Val::C(x, _) => Val::C(x & mask(t2.width()), t2.width()),
                    v => v,
                }
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.cst(t, a), self.cst(t, b));
                let op = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    _ => panic!("constant {op}"),
                };
                self.bin(op, &x, &y)
            }
        }
    }

    fn write_const(&mut self, out: &mut [u8], off: usize, ty: &TyRef, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(l) => {
                for (i, (t, c)) in l.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.write_const(out, off + o, t, c);
                }
            }
            _ => {
                if let Ty::Vector(t, n) = &**ty {
                    for i in 0..*n {
                        if let Cst::Splat(b) = c {
                            self.write_const(out, off + (t.size() * i) as usize, t, &b.1);
                        }
                    }
                    return;
                }
                let v = self.cst(ty, c);
                if let Val::C(x, _) = v {
                    let n = ty.size() as usize;
                    out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                } else {
                    panic!("constant initialiser");
                }
            }
        }
    }

    fn global_obj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.global_objs[id as usize] {
            return Ok(o.clone());
        }
        let name = self.global_names[id as usize].clone();
        let def = match self.m.parse_global(&name) {
            Some(d) => d,
            None => return inc(format!("global {name}")),
        };
        let n = def.ty.size() as usize;
        let mut o = Obj::new(n.max(if def.init.is_none() { 64 } else { 0 }));
        if let Some(c) = &def.init {
            let mut buf = vec![0u8; n];
            self.write_const(&mut buf, 0, &def.ty, c);
            o.bytes = buf;
        }
        let o = Rc::new(o);
        self.global_objs[id as usize] = Some(o.clone());
        Ok(o)
    }

    fn function(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let mut f = match self.m.parse_func(name) {
            Some(f) => f,
            None => return inc(format!("no body for {name}")),
        };
        for b in f.blocks.iter_mut() {
            for l in b.insts.iter_mut() {
                let this = &mut *self;
                l.inst.operands(&mut |o| {
                    if let Opnd::Cst(t, c) = o {
                        let v = this.cst(t, c);
                        *o = Opnd::Val(v);
                    }
                });
            }
        }
        self.fn_seen.insert(name.to_string());
        let f = Rc::new(f);
        self.funcs.insert(Rc::from(name), f.clone());
        Ok(f)
    }

    // ---------------------------------------------------------------- memory

    fn obj<'a>(&'a mut self, st: &'a State, id: u64, addr: u64) -> R<Rc<Obj>> {
        if id >= HEAP_ID {
            match st.mem.heap.get((id - HEAP_ID) as usize) {
                Some(Some(o)) => Ok(o.clone()),
                _ => inc(format!("access to freed heap object at {addr:#x}")),
            }
        } else if id >= STACK_ID {
            match st.mem.stacks.get((id / STACK_ID - 1) as usize).and_then(|s| s.get((id % STACK_ID) as usize)) {
                Some(o) => Ok(o.clone()),
                _ => inc(format!("access to dead stack object at {addr:#x}")),
            }
        } else if id >= GLOBAL_ID {
            let g = (id - GLOBAL_ID) as u32;
            if let Some(o) = st.mem.globals.get(&g) {
                return Ok(o.clone());
            }
            if g as usize >= self.global_objs.len() {
                return inc(format!("wild pointer {addr:#x}"));
            }
            self.global_obj(g)
        } else {
            inc(format!("null or wild pointer {addr:#x}"))
        }
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let id = addr >> 32;
        if id >= HEAP_ID {
            match st.mem.heap.get_mut((id - HEAP_ID) as usize) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => inc(format!("write to freed heap object at {addr:#x}")),
            }
        } else if id >= STACK_ID {
            match st.mem.stacks.get_mut((id / STACK_ID - 1) as usize).and_then(|s| s.get_mut((id % STACK_ID) as usize)) {
                Some(o) => Ok(Rc::make_mut(o)),
                _ => inc(format!("write to dead stack object at {addr:#x}")),
            }
        } else if id >= GLOBAL_ID {
            let g = (id - GLOBAL_ID) as u32;
            if g as usize >= self.global_objs.len() {
                return inc(format!("wild pointer {addr:#x}"));
            }
            if !st.mem.globals.contains_key(&g) {
                let o = self.global_obj(g)?;
                st.mem.globals.insert(g, o);
            }
            Ok(Rc::make_mut(st.mem.globals.get_mut(&g).unwrap()))
        } else {
            inc(format!("write to null or wild pointer {addr:#x}"))
        }
    }

    fn load_int(&mut self, st: &State, addr: u64, bytes: usize, w: u32) -> R<Val> {
        let o = self.obj(st, addr >> 32, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + bytes > o.bytes.len() {
            return inc(format!(
                "out of bounds read at {addr:#x}+{bytes} (object of {})",
                o.bytes.len()
            ));
        }
        let symbolic = !o.sym.is_empty() && o.sym[off..off + bytes].iter().any(|x| *x != 0);
        if !symbolic {
            let mut x = 0u128;
            for k in (0..bytes).rev() {
                x = (x << 8) | o.bytes[off + k] as u128;
            }
            return Ok(Val::C(x & mask(w), w));
        }
        let mut acc: Option<E> = None;
        for k in 0..bytes {
            let b = if o.sym[off + k] != 0 {
                o.sym[off + k] - 1
            } else {
                self.ar.constant(o.bytes[off + k] as u128, 8)
            };
            acc = Some(match acc {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let e = acc.unwrap();
        let full = self.ar.width(e);
        let e = if w < full { self.ar.extract(0, w, e) } else { e };
        Ok(self.v(e))
    }

    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, addr + ty.field_offset(i), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(t, n) if matches!(**t, Ty::Int(1)) => {
                let x = self.load_int(st, addr, ((*n + 7) / 8) as usize, *n as u32)?;
                let v = (0..*n as u32).map(|i| self.extract(&x, i, 1)).collect();
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(t, n) | Ty::Vector(t, n) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, addr + t.size() * i, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => {
                let w = t.width();
                if w > 128 {
                    return inc(format!("load of {w} bits"));
                }
                self.load_int(st, addr, ((w + 7) / 8) as usize, w)
            }
        }
    }

    fn store_int(&mut self, st: &mut State, addr: u64, v: &Val) -> R<()> {
        let w = self.w(v);
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::C(x, _) => {
                let o = self.obj_mut(st, addr)?;
                if off + n > o.bytes.len() {
                    return inc(format!("out of bounds write at {addr:#x}+{n}"));
                }
                o.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Val::S(e) => {
                let e = if w % 8 != 0 {
                    self.ar.zext(*e, n as u32 * 8)
                } else {
                    *e
                };
                let parts: Vec<E> = (0..n).map(|k| self.ar.extract(k as u32 * 8, 8, e)).collect();
                let consts: Vec<Option<u128>> = parts.iter().map(|p| self.ar.as_const(*p)).collect();
                let o = self.obj_mut(st, addr)?;
                if off + n > o.bytes.len() {
                    return inc(format!("out of bounds write at {addr:#x}+{n}"));
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.bytes.len()];
                }
                for k in 0..n {
                    match consts[k] {
                        Some(c) => {
                            o.bytes[off + k] = c as u8;
                            o.sym[off + k] = 0;
                        }
                        None => o.sym[off + k] = parts[k] + 1,
                    }
                }
            }
            Val::A(_) => panic!(),
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Vector(t, n), Val::A(l)) if matches!(**t, Ty::Int(1)) => {
                let x = self.pack(l, 1);
                let _ = n;
                self.store_int(st, addr, &x)
            }
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    let t = ty.field(i);
                    self.store(st, addr + ty.field_offset(i), &t, x)?;
                }
                Ok(())
            }
            _ => self.store_int(st, addr, v),
        }
    }

    fn pack(&mut self, l: &[Val], _w: u32) -> Val {
        let mut acc: Option<E> = None;
        for x in l {
            let b = self.e(x);
            acc = Some(match acc {
                None => b,
                Some(lo) => self.ar.concat(b, lo),
            });
        }
        let e = acc.unwrap();
        self.v(e)
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if st.th.alive > 1 {
            self.touch(st, src, n as u64, false)?;
            self.touch(st, dst, n as u64, true)?;
        }
        let so = self.obj(st, src >> 32, src)?;
        let soff = (src & 0xffff_ffff) as usize;
        if soff + n > so.bytes.len() {
            return inc(format!("out of bounds copy from {src:#x}+{n}"));
        }
        let doff = (dst & 0xffff_ffff) as usize;
        let d = self.obj_mut(st, dst)?;
        if doff + n > d.bytes.len() {
            return inc(format!("out of bounds copy to {dst:#x}+{n}"));
        }
        d.bytes[doff..doff + n].copy_from_slice(&so.bytes[soff..soff + n]);
        if !so.sym.is_empty() {
            if d.sym.is_empty() {
                d.sym = vec![0; d.bytes.len()];
            }
            d.sym[doff..doff + n].copy_from_slice(&so.sym[soff..soff + n]);
        } else if !d.sym.is_empty() {
            for s in &mut d.sym[doff..doff + n] {
                *s = 0;
            }
        }
        Ok(())
    }

    fn malloc(&mut self, st: &mut State, n: u64) -> R<Val> {
        if n > 1 << 24 {
            return inc(format!("allocation of {n} bytes"));
        }
        st.mem.heap.push(Some(Rc::new(Obj::new(n as usize))));
        Ok(Val::C(
            ((HEAP_ID + st.mem.heap.len() as u64 - 1) as u128) << 32,
            64,
        ))
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        if id < HEAP_ID || (p & 0xffff_ffff) != 0 {
            return inc(format!("free of {p:#x}"));
        }
        if st.th.alive > 1 {
            let n = self.obj(st, id, p)?.bytes.len();
            self.touch(st, p, n as u64, true)?;
            st.th.shadow.remove(&id);
        }
        match st.mem.heap.get_mut((id - HEAP_ID) as usize) {
            Some(x @ Some(_)) => {
                *x = None;
                Ok(())
            }
            _ => inc("double free".to_string()),
        }
    }

    // ---------------------------------------------------------------- path conditions

    fn slice(&self, st: &State, e: E) -> Vec<E> {
        let mut vars = self.ar.vars_of(e);
        let mut taken = vec![false; st.pc.len()];
        let mut out = Vec::new();
        loop {
            let mut changed = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !taken[i] {
                    let m = self.ar.vars_of(*c);
                    if m & vars != 0 {
                        taken[i] = true;
                        out.push(*c);
                        vars |= m;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    fn eval(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.ar.eval(e, &st.model, &mut memo)
    }

    /// Can `e` be true on this path? The model returned satisfies the whole path condition.
    fn feasible(&mut self, st: &State, e: E, goal: bool) -> R<Option<Rc<Vec<u128>>>> {
        if let Some(x) = self.ar.as_const(e) {
            return Ok(if x != 0 { Some(st.model.clone()) } else { None });
        }
        if self.eval(st, e) == 1 {
            self.solver.stats.model_hits += 1;
            return Ok(Some(st.model.clone()));
        }
        let mut q = self.slice(st, e);
        q.push(e);
        match self.solver.check(&self.ar, &q, goal) {
            Res::Unsat => Ok(None),
            Res::Unknown => inc("solver gave no answer"),
            Res::Sat(m) => {
                let mut full = (*st.model).clone();
                if full.len() < self.ar.vars.len() {
                    full.resize(self.ar.vars.len(), 0);
                }
                for (v, x) in m.iter() {
                    full[*v as usize] = *x;
                }
                Ok(Some(Rc::new(full)))
            }
        }
    }

    fn constrain(&mut self, st: &mut State, e: E) {
        if self.ar.as_const(e).is_some() {
            return;
        }
        if let Node::Bin(Op::And, a, b) = self.ar.node(e).clone() {
            self.constrain(st, a);
            self.constrain(st, b);
            return;
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }

    /// Make a value concrete, forking one state per feasible value. Must be called before the
    /// instruction has changed the state.
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            Val::C(x, _) => return Ok(*x),
            Val::S(e) => *e,
            Val::A(_) => panic!("concretize aggregate"),
        };
        if let Some(x) = st.known.get(&e) {
            return Ok(*x);
        }
        let vals = self.enumerate(st, e)?;
        let w = self.ar.width(e);
        for (k, (x, model)) in vals.iter().enumerate().skip(1) {
            let _ = k;
            let mut s2 = st.clone();
            let c = self.ar.constant(*x, w);
            let eq = self.ar.cmp(Cmp::Eq, e, c);
            self.constrain(&mut s2, eq);
            s2.model = model.clone();
            Rc::make_mut(&mut s2.known).insert(e, *x);
            s2.depth_forks += 1;
            self.forks += 1;
            self.work.push(s2);
        }
        let (x, model) = vals[0].clone();
        let c = self.ar.constant(x, w);
        let eq = self.ar.cmp(Cmp::Eq, e, c);
        if vals.len() > 1 {
            self.constrain(st, eq);
        }
        st.model = model;
        Rc::make_mut(&mut st.known).insert(e, x);
        Ok(x)
    }

    /// All feasible values of `e`, each with a model.
    fn enumerate(&mut self, st: &State, e: E) -> R<Vec<(u128, Rc<Vec<u128>>)>> {
        let w = self.ar.width(e);
        let first = self.eval(st, e);
        let mut out = vec![(first, st.model.clone())];
        let mut excl = {
            let c = self.ar.constant(first, w);
            let q = self.ar.cmp(Cmp::Eq, e, c);
            self.ar.not(q)
        };
        loop {
            match self.feasible(st, excl, false)? {
                None => return Ok(out),
                Some(m) => {
                    let mut memo = HashMap::new();
                    let x = self.ar.eval(e, &m, &mut memo);
                    out.push((x, m));
                    if out.len() > self.lim.max_enum {
                        return inc(format!(
                            "more than {} values for a concretised expression",
                            self.lim.max_enum
                        ));
                    }
                    let c = self.ar.constant(x, w);
                    let q = self.ar.cmp(Cmp::Eq, e, c);
                    let n = self.ar.not(q);
                    excl = self.ar.bin(Op::And, excl, n);
                }
            }
        }
    }

    fn inputs_of(&self, st: &State, model: &[u128]) -> Vec<(u32, u128)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|(e, w)| (*w, self.ar.eval(*e, model, &mut memo)))
            .collect()
    }

    fn violation(&mut self, st: &State, kind: &str, detail: &str, model: &[u128]) {
        let stack = st.frames.iter().rev().take(12).map(|f| f.func.name.clone()).collect();
        let v = Violation {
            kind: kind.to_string(),
            detail: detail.to_string(),
            inputs: self.inputs_of(st, model),
            stack,
        };
        self.violations.push(v);
    }

    // ---------------------------------------------------------------- running

    pub fn run(&mut self, entry: &str) {
        self.start = Instant::now();
        let f = match self.function(entry) {
            Ok(f) => f,
            Err(e) => {
                self.inconclusive.push(format!("{e:?}"));
                return;
            }
        };
        let fr = self.frame(f, 0);
        let st = State {
            frames: vec![fr],
            mem: Mem {
                stacks: vec![Vec::new()],
                heap: Vec::new(),
                globals: HashMap::new(),
            },
            pc: Vec::new(),
            model: Rc::new(Vec::new()),
            known: Rc::new(HashMap::new()),
            inputs: Vec::new(),
            obs: Vec::new(),
            steps: 0,
            depth_forks: 0,
            keys: Rc::new(Vec::new()),
            th: Threads::new(),
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run_state(&mut st);
            self.max_inputs = self.max_inputs.max(st.inputs.len());
            match r {
                Stop::Done => {
                    self.paths_done += 1;
                    if st.th.several() {
                        let e = self.condition(&mut st);
                        self.ended.push(e);
                    }
                    self.record(&st);
                }
                Stop::Infeasible => self.paths_infeasible += 1,
                Stop::Violation => {
                    break;
                }
                Stop::Inconclusive(s) => {
                    let mut s = s;
                    for f in st.frames.iter().rev().take(8) {
                        s.push_str(&format!("\n    in {}", f.func.name));
                    }
                    self.inconclusive.push(s);
                    if self.inconclusive.len() >= 3 {
                        break;
                    }
                }
            }
            if self.paths_done + self.paths_infeasible > self.lim.max_paths {
                self.inconclusive.push("path limit".into());
                break;
            }
            if self.deadline_hit {
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.lim.time_s {
                self.inconclusive.push("time limit".into());
                self.deadline_hit = true;
                break;
            }
        }
        self.all_schedules();
    }

    fn record(&mut self, st: &State) {
        // reservoir sample of the completed paths, for validation against the native build
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let model = st.model.clone();
        let slot = if self.recs.len() < self.lim.keep_paths {
            self.recs.len()
        } else {
            let r = ((self.rng >> 33) % self.paths_done) as usize;
            if r >= self.lim.keep_paths {
                return;
            }
            r
        };
        let inputs = self.inputs_of(st, &model);
        let mut memo = HashMap::new();
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                Val::C(x, _) => *x,
                Val::S(e) => self.ar.eval(*e, &model, &mut memo),
                Val::A(_) => 0,
            })
            .collect();
        let rec = PathRec { inputs, obs };
        if slot == self.recs.len() {
            self.recs.push(rec);
        } else {
            self.recs[slot] = rec;
        }
    }

    fn frame(&self, f: Rc<Func>, mark: usize) -> Frame {
        let n = f.nregs;
        Frame {
            func: f,
            block: 0,
            idx: 0,
            prev: 0,
            regs: vec![Val::C(0, 1); n],
            stack_mark: mark,
        }
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x7f == 0 && self.start.elapsed().as_secs_f64() > self.lim.time_s {
                self.deadline_hit = true;
                return Stop::Inconclusive("time limit".into());
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.max_steps {
                return Stop::Inconclusive("step limit on a path".into());
            }
            if let Err(s) = self.step(st) {
                return s;
            }
        }
    }

    fn get(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::Val(v) => v.clone(),
            Opnd::Cst(..) => unreachable!("unresolved constant"),
        }
    }

    fn set(&self, st: &mut State, dst: Option<u32>, v: Val) {
        let f = st.frames.last_mut().unwrap();
        if let Some(d) = dst {
            f.regs[d as usize] = v;
        }
        f.idx += 1;
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let (func, cur) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.block)
        };
        let mut vals: Vec<(u32, Val)> = Vec::new();
        let mut k = 0;
        for l in &func.blocks[b as usize].insts {
            if let Inst::Phi(_, inc) = &l.inst {
                let o = inc
                    .iter()
                    .find(|(_, p)| *p == cur)
                    .unwrap_or_else(|| panic!("phi without predecessor in {}", func.name));
                vals.push((l.dst.unwrap(), self.get(st, &o.0)));
                k += 1;
            } else {
                break;
            }
        }
        let f = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.prev = cur;
        f.block = b;
        f.idx = k;
    }

    /// Decide a symbolic condition: returns the side this state takes, pushes the other.
    fn decide(&mut self, st: &mut State, c: &Val, other: impl FnOnce(&mut Self, &mut State, bool)) -> R<bool> {
        let e = match c {
            Val::C(x, _) => return Ok(*x != 0),
            Val::S(e) => *e,
            _ => panic!(),
        };
        if let Some(x) = st.known.get(&e) {
            return Ok(*x != 0);
        }
        let cur = self.eval(st, e) == 1;
        let ne = self.ar.not(e);
        let (mine, theirs) = if cur { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, theirs, false)? {
            let mut s2 = st.clone();
            self.constrain(&mut s2, theirs);
            Rc::make_mut(&mut s2.known).insert(e, !cur as u128);
            s2.model = m;
            s2.depth_forks += 1;
            self.forks += 1;
            other(self, &mut s2, !cur);
            self.work.push(s2);
            self.constrain(st, mine);
        }
        Rc::make_mut(&mut st.known).insert(e, cur as u128);
        Ok(cur)
    }

    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q)).collect();
                Val::A(Rc::new(v))
            }
            _ => f(self, a, b),
        }
    }

    fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> Val) -> Val {
        match a {
            Val::A(x) => {
                let v = x.iter().map(|p| f(self, p)).collect();
                Val::A(Rc::new(v))
            }
            _ => f(self, a),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let func = st.frames.last().unwrap().func.clone();
        let (b, i) = {
            let f = st.frames.last().unwrap();
            (f.block as usize, f.idx as usize)
        };
        let line = &func.blocks[b].insts[i];
        if line.dbg != 0 {
            self.dbg_seen.insert(line.dbg);
        }
        let dst = line.dst;
        if st.th.alive > 1 && self.point(st, line)? {
            return Ok(());
        }
        match &line.inst {
            Inst::Alloca(t, n) => {
                let k = match n {
                    Some((_, o)) => {
                        let v = self.get(st, o);
                        self.concretize(st, &v)? as u64
                    }
                    None => 1,
                };
                let sz = t.size() * k;
                let stack = &mut st.mem.stacks[st.th.cur];
                let id = STACK_ID * (st.th.cur as u64 + 1) + stack.len() as u64;
                stack.push(Rc::new(Obj::new(sz as usize)));
                self.set(st, dst, Val::C((id as u128) << 32, 64));
            }
            Inst::Load(t, p) => {
                narrow(t)?;
                let pv = self.get(st, p);
                if st.th.alive > 1 {
                    if let Val::C(a, _) = &pv {
                        if line.order == 0 {
                            self.touch(st, *a as u64, t.size() as u64, false)?;
                        } else {
                            st.th.acquire(*a as u64, line.order & ACQUIRE != 0);
                        }
                    }
                }
                let v = match &pv {
                    Val::C(a, _) => self.load(st, *a as u64, t)?,
                    Val::S(e) => self.load_sym(st, *e, t)?,
                    _ => panic!(),
                };
                self.set(st, dst, v);
            }
            Inst::Store(t, v, p) => {
                let pv = self.get(st, p);
                let a = self.concretize(st, &pv)? as u64;
                let v = self.get(st, v);
                if st.th.alive > 1 {
                    if line.order == 0 {
                        self.touch(st, a, t.size() as u64, true)?;
                    } else {
                        st.th.release(a, line.order & RELEASE != 0, false);
                    }
                }
                self.store(st, a, t, &v)?;
                self.set(st, dst, Val::C(0, 1));
            }
            Inst::Gep(t, p, idx) => {
                let mut a = self.get(st, p);
                if let Val::A(_) = a {
                    return inc("vector getelementptr");
                }
                let mut cur: Option<TyRef> = None;
                for (_, o) in idx {
                    let iv = self.get(st, o);
                    if let Val::A(_) = iv {
                        return inc("vector getelementptr");
                    }
                    let scale;
                    match &cur {
                        None => {
                            scale = t.size();
                            cur = Some(t.clone());
                        }
                        Some(ct) => match &**ct {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Val::C(x, _) => *x as usize,
                                    _ => return inc("symbolic struct index"),
                                };
                                let off = ct.field_offset(k);
                                a = self.bin(Op::Add, &a, &Val::C(off as u128, 64));
                                cur = Some(ct.field(k));
                                continue;
                            }
                            _ => {
                                let et = ct.field(0);
                                scale = et.size();
                                cur = Some(et);
                            }
                        },
                    }
                    let w = self.w(&iv);
                    let i64v = if w < 64 {
                        self.sxt(&iv, 64)
                    } else if w > 64 {
                        self.trunc(&iv, 64)
                    } else {
                        iv
                    };
                    let d = self.bin(Op::Mul, &i64v, &Val::C(scale as u128, 64));
                    a = self.bin(Op::Add, &a, &d);
                }
                self.set(st, dst, a);
            }
            Inst::Bin(op, t, a, b2) => {
                narrow(t)?;
                let (x, y) = (self.get(st, a), self.get(st, b2));
                let op = *op;
                let v = self.map2(&x, &y, &mut |s, p, q| s.binop(op, p, q));
                self.set(st, dst, v);
            }
            Inst::FNeg(_, a) => {
                let x = self.get(st, a);
                let v = self.map1(&x, &mut |s, p| {
                    let w = s.w(p);
                    s.bin(Op::Xor, p, &Val::C(1u128 << (w - 1), w))
                });
                self.set(st, dst, v);
            }
            Inst::Icmp(pr, t, a, b2) => {
                narrow(t)?;
                let (x, y) = (self.get(st, a), self.get(st, b2));
                let pr = *pr;
                let v = self.map2(&x, &y, &mut |s, p, q| s.icmp(pr, p, q));
                self.set(st, dst, v);
            }
            Inst::Fcmp(pr, _, a, b2) => {
                let (x, y) = (self.get(st, a), self.get(st, b2));
                let pr = *pr;
                let v = self.map2(&x, &y, &mut |s, p, q| {
                    let (p, q) = (s.e(p), s.e(q));
                    let r = s.ar.fcmp(pr, p, q);
                    s.v(r)
                });
                self.set(st, dst, v);
            }
            Inst::Cast(op, t, a, t2) => {
                narrow(t)?;
                narrow(t2)?;
                let x = self.get(st, a);
                let v = self.cast(op, t, &x, t2)?;
                self.set(st, dst, v);
            }
            Inst::Select(_, c, t, a, b2) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b2));
                if let Val::A(cl) = &cv {
                    let (xl, yl) = match (&x, &y) {
                        (Val::A(p), Val::A(q)) => (p.clone(), q.clone()),
                        _ => return inc("vector select"),
                    };
                    let cl = cl.clone();
                    let v = (0..cl.len()).map(|i| self.ite(&cl[i], &xl[i], &yl[i])).collect();
                    self.set(st, dst, Val::A(Rc::new(v)));
                    return Ok(());
                }
                // keep pointers concrete: fork instead of building a conditional pointer
                let fork = matches!(**t, Ty::Ptr);
                if fork && matches!(cv, Val::S(_)) {
                    let (x2, y2) = (x.clone(), y.clone());
                    let take = self.decide(st, &cv, |s, s2, side| {
                        s.set(s2, dst, if side { x2 } else { y2 });
                    })?;
                    self.set(st, dst, if take { x } else { y });
                    return Ok(());
                }
                let v = self.ite(&cv, &x, &y);
                self.set(st, dst, v);
            }
            Inst::Phi(..) => return inc("phi at entry"),
            Inst::ExtractValue(_, a, idx) => {
                let mut v = self.get(st, a);
                for k in idx {
                    v = match &v {
                        Val::A(l) => l[*k].clone(),
                        _ => return inc("extractvalue"),
                    };
                }
                self.set(st, dst, v);
            }
            Inst::InsertValue(_, a, _, x, idx) => {
                let mut v = self.get(st, a);
                let x = self.get(st, x);
                fn put(v: &mut Val, x: Val, idx: &[usize]) {
                    if idx.is_empty() {
                        *v = x;
                        return;
                    }
                    if let Val::A(l) = v {
                        put(&mut Rc::make_mut(l)[idx[0]], x, &idx[1..]);
                    }
                }
                put(&mut v, x, idx);
                self.set(st, dst, v);
            }
            Inst::ExtractElement(_, a, k) => {
                let v = self.get(st, a);
                let kv = self.get(st, k);
                let k = self.concretize(st, &kv)? as usize;
                let r = match &v {
                    Val::A(l) => l[k].clone(),
                    _ => return inc("extractelement"),
                };
                self.set(st, dst, r);
            }
            Inst::InsertElement(_, a, x, k) => {
                let v = self.get(st, a);
                let x = self.get(st, x);
                let kv = self.get(st, k);
                let k = self.concretize(st, &kv)? as usize;
                let r = match v {
                    Val::A(mut l) => {
                        Rc::make_mut(&mut l)[k] = x;
                        Val::A(l)
                    }
                    _ => return inc("insertelement"),
                };
                self.set(st, dst, r);
            }
            Inst::Shuffle(t, a, b2, m) => {
                let (x, y) = (self.get(st, a), self.get(st, b2));
                let (x, y) = match (x, y) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => return inc("shufflevector"),
                };
                let z = self.zero(&t.field(0));
                let v = m
                    .iter()
                    .map(|k| match k {
                        None => z.clone(),
                        Some(k) if (*k as usize) < x.len() => x[*k as usize].clone(),
                        Some(k) => y[*k as usize - x.len()].clone(),
                    })
                    .collect();
                self.set(st, dst, Val::A(Rc::new(v)));
            }
            Inst::Freeze(_, a) => {
                let v = self.get(st, a);
                self.set(st, dst, v);
            }
            Inst::Fence => {
                if st.th.alive > 1 {
                    st.th.fence(line.order & ACQUIRE != 0, line.order & RELEASE != 0);
                }
                self.set(st, None, Val::C(0, 1))
            }
            Inst::CmpXchg(t, p, a, n) => {
                let pv = self.get(st, p);
                let addr = self.concretize(st, &pv)? as u64;
                let old = self.load(st, addr, t)?;
                let (a, n) = (self.get(st, a), self.get(st, n));
                let eq = self.cmp(Cmp::Eq, &old, &a);
                if st.th.alive > 1 {
                    // whether it succeeds decides what is ordered
                    if self.concretize(st, &eq)? == 1 {
                        st.th.acquire(addr, line.order & ACQUIRE != 0);
                        st.th.release(addr, line.order & RELEASE != 0, true);
                    } else {
                        st.th.acquire(addr, line.order & FAIL_ACQUIRE != 0);
                    }
                }
                let nv = self.ite(&eq, &n, &old);
                self.store(st, addr, t, &nv)?;
                self.set(st, dst, Val::A(Rc::new(vec![old, eq])));
            }
            Inst::AtomicRmw(op, t, p, a) => {
                let pv = self.get(st, p);
                let addr = self.concretize(st, &pv)? as u64;
                let old = self.load(st, addr, t)?;
                let a = self.get(st, a);
                if st.th.alive > 1 {
                    st.th.acquire(addr, line.order & ACQUIRE != 0);
                    st.th.release(addr, line.order & RELEASE != 0, true);
                }
                let nv = match *op {
                    "xchg" => a,
                    "add" => self.bin(Op::Add, &old, &a),
                    "sub" => self.bin(Op::Sub, &old, &a),
                    "and" => self.bin(Op::And, &old, &a),
                    "or" => self.bin(Op::Or, &old, &a),
                    "xor" => self.bin(Op::Xor, &old, &a),
                    o => return inc(format!("atomicrmw {o}")),
                };
                self.store(st, addr, t, &nv)?;
                self.set(st, dst, old);
            }
            Inst::Br(l) => self.goto(st, *l),
            Inst::CondBr(c, a, b2) => {
                let cv = self.get(st, c);
                let (a, b2) = (*a, *b2);
                let side = self.decide(st, &cv, |s, s2, side| s.goto(s2, if side { a } else { b2 }))?;
                self.goto(st, if side { a } else { b2 });
            }
            Inst::Switch(_, c, d, cases) => {
                let cv = self.get(st, c);
                let x = match &cv {
                    Val::C(x, _) => Some(*x),
                    Val::S(e) => st.known.get(e).copied(),
                    _ => panic!(),
                };
                if let Some(x) = x {
                    let t = cases.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*d);
                    self.goto(st, t);
                    return Ok(());
                }
                let e = self.e(&cv);
                let w = self.ar.width(e);
                // which case does the current model take?
                let cur = self.eval(st, e);
                let mut none = self.ar.constant(1, 1);
                let mut options: Vec<(E, u32, Option<u128>)> = Vec::new();
                for (k, l) in cases {
                    let kc = self.ar.constant(*k, w);
                    let q = self.ar.cmp(Cmp::Eq, e, kc);
                    let n = self.ar.not(q);
                    none = self.ar.bin(Op::And, none, n);
                    options.push((q, *l, Some(*k)));
                }
                options.push((none, *d, None));
                let mine = options
                    .iter()
                    .position(|(_, _, k)| *k == Some(cur))
                    .unwrap_or(options.len() - 1);
                let mut forked = false;
                for (j, (q, l, k)) in options.iter().enumerate() {
                    if j == mine {
                        continue;
                    }
                    if let Some(m) = self.feasible(st, *q, false)? {
                        let mut s2 = st.clone();
                        self.constrain(&mut s2, *q);
                        if let Some(k) = k {
                            Rc::make_mut(&mut s2.known).insert(e, *k);
                        }
                        s2.model = m;
                        s2.depth_forks += 1;
                        self.forks += 1;
                        self.goto(&mut s2, *l);
                        self.work.push(s2);
                        forked = true;
                    }
                }
                let (q, l, k) = options[mine];
                if forked {
                    self.constrain(st, q);
                }
                if let Some(k) = k {
                    Rc::make_mut(&mut st.known).insert(e, k);
                }
                self.goto(st, l);
            }
            Inst::Ret(v) => {
                let r = match v {
                    Some((_, o)) => self.get(st, o),
                    None => Val::C(0, 1),
                };
                let fr = st.frames.pop().unwrap();
                st.mem.stacks[st.th.cur].truncate(fr.stack_mark);
                if st.frames.is_empty() {
                    if st.th.cur == 0 {
                        return Err(Stop::Done);
                    }
                    return self.thread_ends(st);
                }
                self.finish_call(st, r);
            }
            Inst::Unreachable => return inc("unreachable executed"),
            Inst::LandingPad => return inc("unwinding"),
            Inst::Unsupported(s) => return inc(format!("unsupported instruction: {s}")),
            Inst::Call {
                ret, callee, args, ..
            } => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.get(st, o));
                }
                let name: Rc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Asm => {
                        let z = self.zero(ret);
                        self.finish_call(st, z);
                        return Ok(());
                    }
                    Callee::Indirect(o) => {
                        let fv = self.get(st, o);
                        let a = self.concretize(st, &fv)? as u64;
                        if a >> 32 != FUNC_ID {
                            return inc(format!("call through {a:#x}"));
                        }
                        let i = ((a & 0xffff_ffff) / 16 - 1) as usize;
                        Rc::from(self.func_names[i].as_str())
                    }
                };
                self.call(st, &name, av, ret)?;
            }
        }
        Ok(())
    }

    /// Deliver the result of the call instruction the top frame is at.
    fn finish_call(&mut self, st: &mut State, r: Val) {
        let (dst, normal) = {
            let f = st.frames.last().unwrap();
            let l = &f.func.blocks[f.block as usize].insts[f.idx as usize];
            match &l.inst {
                Inst::Call { normal, .. } => (l.dst, *normal),
                _ => panic!("return to a non-call"),
            }
        };
        match normal {
            None => self.set(st, dst, r),
            Some(b) => {
                if let Some(d) = dst {
                    st.frames.last_mut().unwrap().regs[d as usize] = r;
                }
                self.goto(st, b);
            }
        }
    }

    fn load_sym(&mut self, st: &mut State, e: E, t: &Ty) -> R<Val> {
        if let Some(x) = st.known.get(&e) {
            return self.load(st, *x as u64, t);
        }
        let vals = self.enumerate(st, e)?;
        let id = vals[0].0 >> 32;
        if !t.is_agg() && *t != Ty::Ptr && vals.iter().all(|(x, _)| x >> 32 == id) {
            // a table read: one conditional value
            let w64 = 64;
            let mut acc: Option<Val> = None;
            for (x, _) in vals.iter() {
                let v = self.load(st, *x as u64, t)?;
                acc = Some(match acc {
                    None => v,
                    Some(a) => {
                        let k = self.ar.constant(*x, w64);
                        let q = self.ar.cmp(Cmp::Eq, e, k);
                        let qv = self.v(q);
                        self.ite(&qv, &v, &a)
                    }
                });
            }
            return Ok(acc.unwrap());
        }
        let a = self.concretize(st, &Val::S(e))?;
        self.load(st, a as u64, t)
    }

    fn icmp(&mut self, pr: &str, a: &Val, b: &Val) -> Val {
        match pr {
            "eq" => self.cmp(Cmp::Eq, a, b),
            "ne" => {
                let r = self.cmp(Cmp::Eq, a, b);
                self.not(&r)
            }
            "ult" => self.cmp(Cmp::Ult, a, b),
            "ule" => self.cmp(Cmp::Ule, a, b),
            "ugt" => self.cmp(Cmp::Ult, b, a),
            "uge" => self.cmp(Cmp::Ule, b, a),
            "slt" => self.cmp(Cmp::Slt, a, b),
            "sle" => self.cmp(Cmp::Sle, a, b),
            "sgt" => self.cmp(Cmp::Slt, b, a),
            "sge" => self.cmp(Cmp::Sle, b, a),
            _ => panic!("icmp {pr}"),
        }
    }

    fn binop(&mut self, op: &str, a: &Val, b: &Val) -> Val {
        let o = match op {
            "add" => Op::Add,
            "sub" => Op::Sub,
            "mul" => Op::Mul,
            "udiv" => Op::UDiv,
            "sdiv" => Op::SDiv,
            "urem" => Op::URem,
            "srem" => Op::SRem,
            "shl" => Op::Shl,
            "lshr" => Op::LShr,
            "ashr" => Op::AShr,
            "and" => Op::And,
            "or" => Op::Or,
            "xor" => Op::Xor,
            _ => {
                let f = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    "frem" => FOp::Rem,
                    _ => panic!("binop {op}"),
                };
                let (x, y) = (self.e(a), self.e(b));
                let r = self.ar.fbin(f, x, y);
                return self.v(r);
            }
        };
        self.bin(o, a, b)
    }

    fn cast(&mut self, op: &str, t: &Ty, x: &Val, t2: &Ty) -> R<Val> {
        if op == "bitcast" {
            return self.bitcast(t, x, t2);
        }
        let w2 = match t2 {
            Ty::Vector(e, _) => e.width(),
            t => t.width(),
        };
        let op = op.to_string();
        Ok(self.map1(x, &mut |s, p| {
            let w = s.w(p);
            match op.as_str() {
                "trunc" => s.trunc(p, w2),
                "zext" => s.zext(p, w2),
                "sext" => s.sxt(p, w2),
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
                    if w2 > w {
                        s.zext(p, w2)
                    } else {
                        s.trunc(p, w2)
                    }
                }
                "fptrunc" | "fpext" => s.fconv(FConv::FToF, p, w2),
                "uitofp" => s.fconv(FConv::UToF, p, w2),
                "sitofp" => s.fconv(FConv::SToF, p, w2),
                "fptoui" => s.fconv(FConv::FToU, p, w2),
                "fptosi" => s.fconv(FConv::FToS, p, w2),
                o => panic!("cast {o}"),
            }
        }))
    }

    fn fconv(&mut self, k: FConv, p: &Val, w: u32) -> Val {
        let e = self.e(p);
        let r = self.ar.fconv(k, e, w);
        self.v(r)
    }

    fn bitcast(&mut self, t: &Ty, x: &Val, t2: &Ty) -> R<Val> {
        match (t, t2) {
            (Ty::Vector(et, n), Ty::Vector(et2, n2)) => {
                if et.width() as u64 * n > 128 {
                    if et.width() == et2.width() {
                        return Ok(x.clone());
                    }
                    return inc("wide vector bitcast");
                }
                let l = match x {
                    Val::A(l) => l.clone(),
                    _ => return inc("bitcast"),
                };
                let p = self.pack(&l, et.width());
                let w = et2.width();
                let v = (0..*n2 as u32).map(|i| self.extract(&p, i * w, w)).collect();
                Ok(Val::A(Rc::new(v)))
            }
            (Ty::Vector(et, n), _) => {
                if et.width() as u64 * n > 128 {
                    return inc("wide vector bitcast");
                }
                let l = match x {
                    Val::A(l) => l.clone(),
                    _ => return inc("bitcast"),
                };
                Ok(self.pack(&l, et.width()))
            }
            (_, Ty::Vector(et2, n2)) => {
                let w = et2.width();
                let v = (0..*n2 as u32).map(|i| self.extract(x, i * w, w)).collect();
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(x.clone()),
        }
    }

    fn call(&mut self, st: &mut State, name: &Rc<str>, args: Vec<Val>, ret: &TyRef) -> R<()> {
        if let Some(r) = self.builtin(st, name, &args, ret)? {
            if !matches!(r, Val::C(_, 0)) {
                self.finish_call(st, r);
            }
            return Ok(());
        }
        if !self.m.funcs.contains_key(&**name) {
            if let Some(t) = self.m.aliases.get(&**name) {
                let t: Rc<str> = Rc::from(*t);
                return self.call(st, &t, args, ret);
            }
            return inc(format!("external function {name}"));
        }
        if st.frames.len() >= self.lim.max_depth {
            let m = st.model.clone();
            self.violation(st, "recursion", &format!("call depth over {}", self.lim.max_depth), &m);
            return Err(Stop::Violation);
        }
        let f = self.function(name)?;
        if self.trace {
            eprintln!("{}{} {:?}", " ".repeat(st.frames.len()), name, args);
        }
        let mut fr = self.frame(f.clone(), st.mem.stacks[st.th.cur].len());
        for (p, v) in f.params.iter().zip(args) {
            fr.regs[*p as usize] = v;
        }
        st.frames.push(fr);
        Ok(())
    }

    fn panic_on(&mut self, st: &State, what: &str) -> Stop {
        let m = st.model.clone();
        self.violation(st, "panic", what, &m);
        Stop::Violation
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> Val {
        let idx = st.inputs.len() as u32;
        let e = self.ar.var_at(idx, w);
        st.inputs.push((e, w));
        Val::S(e)
    }

    fn u64arg(&mut self, st: &mut State, v: &Val) -> R<u64> {
        Ok(self.concretize(st, v)? as u64)
    }

    /// Functions the engine implements itself. `None`: execute the body.
    fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], ret: &TyRef) -> R<Option<Val>> {
        let unit = Val::C(0, 1);
        if name == "symx_spawn" {
            self.spawn(st, a)?;
            return Ok(Some(unit));
        }
        if name == "symx_join" {
            return self.join(st);
        }
        if let Some(n) = name.strip_prefix("symx_") {
            return self.symx(st, n, a).map(Some);
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, ret).map(Some);
        }
        if name.starts_with("_R") {
            if name.contains("4core9panicking")
                || name.contains("rust_begin_unwind")
                || (name.contains("3std9panicking")
                    && (name.contains("begin_panic")
                        || name.contains("rust_panic")
                        || name.contains("panic_handler")
                        || name.contains("panic_with_hook")))
                || name.contains("18handle_alloc_error")
            {
                return Err(self.panic_on(st, name));
            }
            if name.contains("hashmap_random_keys") {
                return Ok(Some(Val::A(Rc::new(vec![
                    Val::C(0x0123_4567_89ab_cdef, 64),
                    Val::C(0x0fed_cba9_8765_4321, 64),
                ]))));
            }
            if name.ends_with("12___rust_alloc") {
                let n = self.u64arg(st, &a[0])?;
                return self.malloc(st, n).map(Some);
            }
            if name.ends_with("19___rust_alloc_zeroed") {
                let n = self.u64arg(st, &a[0])?;
                return self.malloc(st, n).map(Some);
            }
            if name.ends_with("14___rust_dealloc") {
                let p = self.u64arg(st, &a[0])?;
                self.free(st, p)?;
                return Ok(Some(unit));
            }
            if name.ends_with("14___rust_realloc") {
                let p = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[3])?;
                return self.realloc(st, p, n).map(Some);
            }
            return Ok(None);
        }
        match name {
            "malloc" => {
                let n = self.u64arg(st, &a[0])?;
                self.malloc(st, n).map(Some)
            }
            "calloc" => {
                let x = self.u64arg(st, &a[0])?;
                let y = self.u64arg(st, &a[1])?;
                self.malloc(st, x * y).map(Some)
            }
            "aligned_alloc" => {
                let n = self.u64arg(st, &a[1])?;
                self.malloc(st, n).map(Some)
            }
            "posix_memalign" => {
                let p = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[2])?;
                let v = self.malloc(st, n)?;
                self.store_int(st, p, &v)?;
                Ok(Some(Val::C(0, 32)))
            }
            "realloc" => {
                let p = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[1])?;
                self.realloc(st, p, n).map(Some)
            }
            "free" => {
                let p = self.u64arg(st, &a[0])?;
                self.free(st, p)?;
                Ok(Some(unit))
            }
            "memcmp" | "bcmp" => {
                let p = self.u64arg(st, &a[0])?;
                let q = self.u64arg(st, &a[1])?;
                let n = self.u64arg(st, &a[2])?;
                if st.th.alive > 1 && n > 0 {
                    self.touch(st, p, n, false)?;
                    self.touch(st, q, n, false)?;
                }
                let mut acc = Val::C(0, 32);
                let mut all_const = true;
                let mut pairs = Vec::new();
                for i in 0..n {
                    let x = self.load_int(st, p + i, 1, 8)?;
                    let y = self.load_int(st, q + i, 1, 8)?;
                    if let (Val::C(u, _), Val::C(v, _)) = (&x, &y) {
                        if u != v && all_const {
                            return Ok(Some(Val::C(if u < v { 0xffff_ffff } else { 1 }, 32)));
                        }
                        if u == v {
                            continue;
                        }
                        pairs.push((x, y));
                        break;
                    }
                    all_const = false;
                    pairs.push((x, y));
                }
                for (x, y) in pairs.iter().rev() {
                    let eq = self.cmp(Cmp::Eq, x, y);
                    let lt = self.cmp(Cmp::Ult, x, y);
                    let d = self.ite(&lt, &Val::C(0xffff_ffff, 32), &Val::C(1, 32));
                    acc = self.ite(&eq, &acc, &d);
                }
                Ok(Some(acc))
            }
            "memcpy" | "memmove" => {
                let d = self.u64arg(st, &a[0])?;
                let s = self.u64arg(st, &a[1])?;
                let n = self.u64arg(st, &a[2])?;
                self.copy(st, d, s, n as usize)?;
                Ok(Some(a[0].clone()))
            }
            "strlen" => {
                let p = self.u64arg(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 1, 8)? {
                        Val::C(0, _) => break,
                        Val::C(..) => n += 1,
                        _ => return inc("symbolic strlen"),
                    }
                }
                Ok(Some(Val::C(n as u128, 64)))
            }
            "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0, 32))),
            // one thread, whose end is not run
            "pthread_key_create" => {
                let p = self.u64arg(st, &a[0])?;
                st.th.keys += 1;
                let key = Val::C(st.th.keys as u128, 32);
                self.store_int(st, p, &key)?;
                Ok(Some(Val::C(0, 32)))
            }
            "pthread_key_delete" => Ok(Some(Val::C(0, 32))),
            "pthread_getspecific" | "pthread_setspecific" => {
                let k = self.u64arg(st, &a[0])? as usize;
                if k == 0 || k > st.th.keys as usize {
                    return inc("unknown thread key");
                }
                if k > st.keys.len() {
                    Rc::make_mut(&mut st.keys).resize(k, Val::C(0, 64));
                }
                if name == "pthread_getspecific" {
                    return Ok(Some(st.keys[k - 1].clone()));
                }
                Rc::make_mut(&mut st.keys)[k - 1] = a[1].clone();
                Ok(Some(Val::C(0, 32)))
            }
            "syscall" => {
                let nr = self.u64arg(st, &a[0])?;
                match nr {
                    318 => {
                        let p = self.u64arg(st, &a[1])?;
                        let n = self.u64arg(st, &a[2])?;
                        for i in 0..n {
                            self.store_int(st, p + i, &Val::C((i as u128 * 37 + 11) & 0xff, 8))?;
                        }
                        Ok(Some(Val::C(n as u128, 64)))
                    }
                    202 => self.futex(st, a).map(Some),
                    _ => inc(format!("system call {nr}")),
                }
            }
            "getrandom" => {
                let p = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[1])?;
                for i in 0..n {
                    self.store_int(st, p + i, &Val::C((i as u128 * 37 + 11) & 0xff, 8))?;
                }
                Ok(Some(Val::C(n as u128, 64)))
            }
            "__errno_location" => {
                if st.th.errno == 0 {
                    if let Val::C(x, _) = self.malloc(st, 4)? {
                        st.th.errno = x as u64;
                    }
                }
                Ok(Some(Val::C(st.th.errno as u128, 64)))
            }
            "sched_yield" => Ok(Some(Val::C(0, 32))),
            "getenv" => Ok(Some(Val::C(0, 64))),
            "abort" => Err(self.panic_on(st, "abort")),
            "fmodf" | "fmod" => {
                let (x, y) = (self.e(&a[0]), self.e(&a[1]));
                let r = self.ar.fbin(FOp::Rem, x, y);
                Ok(Some(self.v(r)))
            }
            _ => Ok(None),
        }
    }

    fn realloc(&mut self, st: &mut State, p: u64, n: u64) -> R<Val> {
        let v = self.malloc(st, n)?;
        let np = match v {
            Val::C(x, _) => x as u64,
            _ => unreachable!(),
        };
        if p != 0 {
            let o = self.obj(st, p >> 32, p)?;
            let k = o.bytes.len().min(n as usize);
            self.copy(st, np, p, k)?;
            self.free(st, p)?;
        }
        Ok(v)
    }

    fn symx(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Val> {
        let unit = Val::C(0, 1);
        match n {
            "u8" => Ok(self.fresh(st, 8)),
            "u16" => Ok(self.fresh(st, 16)),
            "u32" => Ok(self.fresh(st, 32)),
            "u64" => Ok(self.fresh(st, 64)),
            "param" => {
                let i = self.u64arg(st, &a[0])? as u32;
                let d = self.u64arg(st, &a[1])?;
                Ok(Val::C(*self.params.get(&i).unwrap_or(&d) as u128, 64))
            }
            "assume" => {
                let c = match &a[0] {
                    Val::C(x, _) => {
                        if x & 1 == 0 {
                            let no = self.ar.constant(0, 1);
                            self.only(st, no);
                            return Err(Stop::Infeasible);
                        }
                        return Ok(unit);
                    }
                    v => self.trunc(v, 1),
                };
                let e = self.e(&c);
                self.only(st, e);
                match self.feasible(st, e, false)? {
                    None => Err(Stop::Infeasible),
                    Some(m) => {
                        self.constrain(st, e);
                        st.model = m;
                        Ok(unit)
                    }
                }
            }
            "assert" => {
                let id = self.u64arg(st, &a[1])? as u32;
                *self.asserts.entry(id).or_insert(0) += 1;
                st.obs.push(Val::C(id as u128 | 1 << 32, 64));
                let c = self.trunc(&a[0], 1);
                match &c {
                    Val::C(x, _) => {
                        self.asserts_folded += 1;
                        if *x == 0 {
                            let m = st.model.clone();
                            self.violation(st, "assert", &format!("{id}"), &m);
                            return Err(Stop::Violation);
                        }
                    }
                    Val::S(e) => {
                        let ne = self.ar.not(*e);
                        if let Some(m) = self.feasible(st, ne, true)? {
                            self.violation(st, "assert", &format!("{id}"), &m);
                            return Err(Stop::Violation);
                        }
                    }
                    _ => panic!(),
                }
                Ok(unit)
            }
            "cover" => {
                let id = self.u64arg(st, &a[0])? as u32;
                *self.covers.entry(id).or_insert(0) += 1;
                st.obs.push(Val::C(id as u128 | 2 << 32, 64));
                Ok(unit)
            }
            "observe" => {
                st.obs.push(a[0].clone());
                Ok(unit)
            }
            // the concrete value of a symbolic byte, forking per value
            "concrete" => {
                let x = self.concretize(st, &a[0])?;
                Ok(Val::C(x, 64))
            }
            "trace" => {
                let p = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[1])?;
                let mut s = String::new();
                for i in 0..n {
                    match self.load_int(st, p + i, 1, 8)? {
                        Val::C(c, _) => s.push(c as u8 as char),
                        _ => s.push('?'),
                    }
                }
                if self.trace {
                    eprintln!("TRACE {s}");
                }
                Ok(unit)
            }
            _ => inc(format!("symx_{n}")),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], ret: &TyRef) -> R<Val> {
        let unit = Val::C(0, 1);
        let base = {
            // strip the type suffix
            let mut b = n;
            for p in [
                "lifetime.start",
                "lifetime.end",
                "assume",
                "memcpy",
                "memmove",
                "memset",
                "experimental.noalias.scope.decl",
                "umin",
                "umax",
                "smin",
                "smax",
                "ucmp",
                "scmp",
                "uadd.with.overflow",
                "usub.with.overflow",
                "umul.with.overflow",
                "sadd.with.overflow",
                "ssub.with.overflow",
                "smul.with.overflow",
                "uadd.sat",
                "usub.sat",
                "sadd.sat",
                "ssub.sat",
                "ctpop",
                "ctlz",
                "cttz",
                "bswap",
                "bitreverse",
                "fshl",
                "fshr",
                "abs",
                "fabs",
                "expect",
                "threadlocal.address",
                "is.constant",
                "trap",
                "fptoui.sat",
                "fptosi.sat",
                "copysign",
                "sqrt",
                "objectsize",
                "launder.invariant.group",
                "x86.sse2.pause",
                "ptrmask",
                "vector.reduce.or",
                "vector.reduce.and",
                "vector.reduce.add",
                "vector.reduce.umax",
                "vector.reduce.umin",
                "floor",
                "ceil",
                "trunc",
                "rint",
                "round",
                "roundeven",
                "fma",
                "fmuladd",
                "powi",
                "minnum",
                "maxnum",
                "dbg",
                "invariant.start",
                "stackrestore",
                "stacksave",
                "prefetch",
                "donothing",
            ] {
                if n == p || (n.starts_with(p) && n.as_bytes()[p.len()] == b'.') {
                    // longest match wins (fptoui.sat vs. f..., uadd.sat vs. u...)
                    if b == n || p.len() > b.len() {
                        b = p;
                    }
                }
            }
            b
        };
        match base {
            "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl"
            | "x86.sse2.pause" | "dbg" | "invariant.start" | "stackrestore" | "prefetch" | "donothing" => {
                Ok(unit)
            }
            "stacksave" => Ok(Val::C(0, 64)),
            "memcpy" | "memmove" => {
                let d = self.u64arg(st, &a[0])?;
                let s = self.u64arg(st, &a[1])?;
                let n = self.u64arg(st, &a[2])?;
                self.copy(st, d, s, n as usize)?;
                Ok(unit)
            }
            "memset" => {
                let d = self.u64arg(st, &a[0])?;
                let n = self.u64arg(st, &a[2])?;
                let v = a[1].clone();
                if st.th.alive > 1 && n > 0 {
                    self.touch(st, d, n, true)?;
                }
                for i in 0..n {
                    self.store_int(st, d + i, &v)?;
                }
                Ok(unit)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let b = base.to_string();
                Ok(self.map2(&a[0].clone(), &a[1].clone(), &mut |s, p, q| {
                    let c = match b.as_str() {
                        "umin" => s.cmp(Cmp::Ult, p, q),
                        "umax" => s.cmp(Cmp::Ult, q, p),
                        "smin" => s.cmp(Cmp::Slt, p, q),
                        _ => s.cmp(Cmp::Slt, q, p),
                    };
                    s.ite(&c, p, q)
                }))
            }
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Cmp::Ult } else { Cmp::Slt };
                let w = ret.width();
                let lt = self.cmp(op, &a[0], &a[1]);
                let gt = self.cmp(op, &a[1], &a[0]);
                let r = self.ite(&gt, &Val::C(1, w), &Val::C(0, w));
                Ok(self.ite(&lt, &Val::C(mask(w), w), &r))
            }
            "uadd.with.overflow" => {
                let r = self.bin(Op::Add, &a[0], &a[1]);
                let o = self.cmp(Cmp::Ult, &r, &a[0]);
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            "usub.with.overflow" => {
                let r = self.bin(Op::Sub, &a[0], &a[1]);
                let o = self.cmp(Cmp::Ult, &a[0], &a[1]);
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let w = self.w(&a[0]);
                let add = base.starts_with("sadd");
                let r = self.bin(if add { Op::Add } else { Op::Sub }, &a[0], &a[1]);
                // overflow iff operands have (add: equal / sub: different) signs and the
                // result's sign differs from the first operand's
                let sa = self.extract(&a[0], w - 1, 1);
                let sb = self.extract(&a[1], w - 1, 1);
                let sr = self.extract(&r, w - 1, 1);
                let same = self.cmp(Cmp::Eq, &sa, &sb);
                let cond = if add { same } else { self.not(&same) };
                let diff = self.bin(Op::Xor, &sa, &sr);
                let o = self.bin(Op::And, &cond, &diff);
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let w = self.w(&a[0]);
                let signed = base.starts_with('s');
                if let (Val::C(x, _), Val::C(y, _)) = (&a[0], &a[1]) {
                    let (r, o) = if signed {
                        let (p, q) = (sext(*x, w), sext(*y, w));
                        match p.checked_mul(q) {
                            Some(z) => {
                                let t = z as u128 & mask(w);
                                (t, sext(t, w) != z)
                            }
                            None => (p.wrapping_mul(q) as u128 & mask(w), true),
                        }
                    } else {
                        match x.checked_mul(*y) {
                            Some(z) => (z & mask(w), z > mask(w)),
                            None => (x.wrapping_mul(*y) & mask(w), true),
                        }
                    };
                    return Ok(Val::A(Rc::new(vec![Val::C(r, w), Val::C(o as u128, 1)])));
                }
                if w > 64 {
                    return inc("128-bit symbolic multiplication");
                }
                let (x, y) = if signed {
                    (self.sxt(&a[0], 2 * w), self.sxt(&a[1], 2 * w))
                } else {
                    (self.zext(&a[0], 2 * w), self.zext(&a[1], 2 * w))
                };
                let p = self.bin(Op::Mul, &x, &y);
                let r = self.trunc(&p, w);
                let back = if signed {
                    self.sxt(&r, 2 * w)
                } else {
                    self.zext(&r, 2 * w)
                };
                let eq = self.cmp(Cmp::Eq, &back, &p);
                let o = self.not(&eq);
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            "uadd.sat" => {
                let w = self.w(&a[0]);
                let r = self.bin(Op::Add, &a[0], &a[1]);
                let o = self.cmp(Cmp::Ult, &r, &a[0]);
                Ok(self.ite(&o, &Val::C(mask(w), w), &r))
            }
            "usub.sat" => {
                let w = self.w(&a[0]);
                let r = self.bin(Op::Sub, &a[0], &a[1]);
                let o = self.cmp(Cmp::Ult, &a[0], &a[1]);
                Ok(self.ite(&o, &Val::C(0, w), &r))
            }
            "ctpop" | "ctlz" | "cttz" | "bitreverse" => {
                let b = base.to_string();
                Ok(self.map1(&a[0].clone(), &mut |s, p| s.bits(&b, p)))
            }
            "bswap" => {
                let w = self.w(&a[0]);
                if let Val::C(x, _) = &a[0] {
                    return Ok(Val::C(x.swap_bytes() >> (128 - w), w));
                }
                let parts: Vec<Val> = (0..w / 8)
                    .rev()
                    .map(|i| self.extract(&a[0], i * 8, 8))
                    .collect();
                Ok(self.pack(&parts, 8))
            }
            "fshl" | "fshr" => {
                let w = self.w(&a[0]);
                let k = match &a[2] {
                    Val::C(k, _) => (*k % w as u128) as u32,
                    _ => {
                        // rotate by a symbolic amount: concretise
                        (self.concretize(st, &a[2])? % w as u128) as u32
                    }
                };
                if k == 0 {
                    return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let (l, r) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                let x = self.bin(Op::Shl, &a[0], &Val::C(l as u128, w));
                let y = self.bin(Op::LShr, &a[1], &Val::C(r as u128, w));
                Ok(self.bin(Op::Or, &x, &y))
            }
            "abs" => {
                let w = self.w(&a[0]);
                let z = Val::C(0, w);
                let n = self.bin(Op::Sub, &z, &a[0]);
                let c = self.cmp(Cmp::Slt, &a[0], &z);
                Ok(self.ite(&c, &n, &a[0]))
            }
            "fabs" => {
                let w = self.w(&a[0]);
                Ok(self.bin(Op::And, &a[0], &Val::C(mask(w - 1), w)))
            }
            "copysign" => {
                let w = self.w(&a[0]);
                let m = self.bin(Op::And, &a[0], &Val::C(mask(w - 1), w));
                let s = self.bin(Op::And, &a[1], &Val::C(1u128 << (w - 1), w));
                Ok(self.bin(Op::Or, &m, &s))
            }
            "sqrt" => {
                let e = self.e(&a[0]);
                let r = self.ar.fsqrt(e);
                Ok(self.v(r))
            }
            "fptoui.sat" => Ok(self.fconv(FConv::FToU, &a[0], ret.width())),
            "fptosi.sat" => Ok(self.fconv(FConv::FToS, &a[0], ret.width())),
            "threadlocal.address" => self.own(st, &a[0]),
            "expect" | "launder.invariant.group" => Ok(a[0].clone()),
            "is.constant" => Ok(Val::C(0, 1)),
            "ptrmask" => Ok(self.bin(Op::And, &a[0], &a[1])),
            "trap" => Err(self.panic_on(st, "llvm.trap")),
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.umax"
            | "vector.reduce.umin" => {
                let l = match &a[0] {
                    Val::A(l) => l.clone(),
                    _ => return inc("reduce"),
                };
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = match base {
                        "vector.reduce.or" => self.bin(Op::Or, &acc, x),
                        "vector.reduce.and" => self.bin(Op::And, &acc, x),
                        "vector.reduce.add" => self.bin(Op::Add, &acc, x),
                        "vector.reduce.umax" => {
                            let c = self.cmp(Cmp::Ult, &acc, x);
                            self.ite(&c, x, &acc)
                        }
                        _ => {
                            let c = self.cmp(Cmp::Ult, x, &acc);
                            self.ite(&c, x, &acc)
                        }
                    };
                }
                Ok(acc)
            }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" => match &a[0] {
                Val::C(x, w) => {
                    let f = |v: f64| match base {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        _ => v.round_ties_even(),
                    };
                    Ok(if *w == 32 {
                        Val::C((f(f32::from_bits(*x as u32) as f64) as f32).to_bits() as u128, 32)
                    } else {
                        Val::C(f(f64::from_bits(*x as u64)).to_bits() as u128, 64)
                    })
                }
                _ => inc(format!("symbolic {base}")),
            },
            _ => inc(format!("intrinsic llvm.{n}")),
        }
    }

    fn bits(&mut self, op: &str, p: &Val) -> Val {
        let w = self.w(p);
        if let Val::C(x, _) = p {
            let r = match op {
                "ctpop" => x.count_ones() as u128,
                "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                "cttz" => x.trailing_zeros().min(w) as u128,
                _ => x.reverse_bits() >> (128 - w),
            };
            return Val::C(r, w);
        }
        match op {
            "ctpop" => {
                let mut acc = Val::C(0, w);
                for i in 0..w {
                    let b = self.extract(p, i, 1);
                    let z = self.zext(&b, w);
                    acc = self.bin(Op::Add, &acc, &z);
                }
                acc
            }
            "ctlz" => {
                let mut acc = Val::C(w as u128, w);
                for i in 0..w {
                    let b = self.extract(p, i, 1);
                    acc = self.ite(&b, &Val::C((w - 1 - i) as u128, w), &acc);
                }
                acc
            }
            "cttz" => {
                let mut acc = Val::C(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.extract(p, i, 1);
                    acc = self.ite(&b, &Val::C(i as u128, w), &acc);
                }
                acc
            }
            _ => {
                let parts: Vec<Val> = (0..w).rev().map(|i| self.extract(p, i, 1)).collect();
                self.pack(&parts, 1)
            }
        }
    }
}
