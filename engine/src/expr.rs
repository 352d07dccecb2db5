//! Hash-consed bit-vector expressions with construction-time simplification.
//!
//! Width-1 expressions are booleans. Floating point values are carried as their IEEE bits;
//! comparisons are lowered to bit-vector logic here, arithmetic stays as an FP node.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FConv {
    /// fp -> fp of another size
    FToF,
    /// unsigned int -> fp
    UToF,
    SToF,
    /// fp -> int, truncating, saturating (LLVM's plain fptoui is the same where defined)
    FToU,
    FToS,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Cmp(Cmp, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(u32, E), // low bit, width from the node
    Concat(E, E),    // high, low
    FBin(FOp, E, E),
    FConv(FConv, E),
    FSqrt(E),
}

pub struct VarInfo {
    pub name: String,
    pub width: u32,
}

pub struct Arena {
    pub nodes: Vec<(Node, u32)>,
    map: HashMap<(Node, u32), E>,
    pub vars: Vec<VarInfo>,
    var_mask: Vec<u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}

pub fn fold_cmp(op: Cmp, a: u128, b: u128, w: u32) -> bool {
    match op {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sext(a, w) < sext(b, w),
        Cmp::Sle => sext(a, w) <= sext(b, w),
    }
}

pub fn fold_fbin(op: FOp, a: u128, b: u128, w: u32) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        };
        r.to_bits() as u128
    }
}

pub fn fold_fconv(k: FConv, a: u128, wf: u32, wt: u32) -> u128 {
    let r = match k {
        FConv::FToF => match (wf, wt) {
            (32, 64) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            (64, 32) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            _ => a,
        },
        FConv::UToF => {
            if wt == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        FConv::SToF => {
            let s = sext(a, wf);
            if wt == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        FConv::FToU => {
            let v = if wf == 32 {
                f32::from_bits(a as u32) as u128
            } else {
                f64::from_bits(a as u64) as u128
            };
            v.min(mask(wt))
        }
        FConv::FToS => {
            let v = if wf == 32 {
                f32::from_bits(a as u32) as i128
            } else {
                f64::from_bits(a as u64) as i128
            };
            let hi = (mask(wt) >> 1) as i128;
            let lo = -hi - 1;
            v.clamp(lo, hi) as u128
        }
    };
    r & mask(wt)
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            var_mask: Vec::new(),
        }
    }

    fn mk(&mut self, n: Node, w: u32) -> E {
        debug_assert!(w > 0 && w <= 128);
        if let Some(e) = self.map.get(&(n.clone(), w)) {
            return *e;
        }
        let m = match &n {
            Node::Const(_) => 0,
            Node::Var(v) => 1u128 << (*v).min(127),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) | Node::FBin(_, a, b) => {
                self.var_mask[*a as usize] | self.var_mask[*b as usize]
            }
            Node::Ite(a, b, c) => {
                self.var_mask[*a as usize]
                    | self.var_mask[*b as usize]
                    | self.var_mask[*c as usize]
            }
            Node::ZExt(a)
            | Node::SExt(a)
            | Node::Extract(_, a)
            | Node::FConv(_, a)
            | Node::FSqrt(a) => self.var_mask[*a as usize],
        };
        let id = self.nodes.len() as E;
        self.nodes.push((n.clone(), w));
        self.var_mask.push(m);
        self.map.insert((n, w), id);
        id
    }

    pub fn vars_of(&self, e: E) -> u128 {
        self.var_mask[e as usize]
    }

    /// of a variable: its place in the models
    pub fn var_index(&self, e: E) -> usize {
        match self.node(e) {
            Node::Var(i) => *i as usize,
            _ => panic!("not a variable"),
        }
    }

    pub fn width(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }

    pub fn node(&self, e: E) -> &Node {
        &self.nodes[e as usize].0
    }

    pub fn constant(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & mask(w)), w)
    }

    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.node(e) {
            Node::Const(v) => Some(*v),
            _ => None,
        }
    }

    pub fn var_at(&mut self, idx: u32, w: u32) -> E {
        // variables are identified by (position on the path, width): two paths that draw the
        // same position with the same width share the variable
        let name = format!("v{}_{}", idx, w);
        for (i, v) in self.vars.iter().enumerate() {
            if v.name == name {
                return self.mk(Node::Var(i as u32), w);
            }
        }
        self.vars.push(VarInfo { name, width: w });
        let id = (self.vars.len() - 1) as u32;
        self.mk(Node::Var(id), w)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        let ones = self.constant(mask(w), w);
        self.bin(Op::Xor, a, ones)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        assert_eq!(w, self.width(b), "width mismatch in {op:?}");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.constant(fold_bin(op, x, y, w), w);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        // constants to the right
        let (a, b, ca, cb) = if commut && (ca.is_some() || (cb.is_none() && a > b)) {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let _ = ca;
        if let Some(y) = cb {
            let all = mask(w);
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => {
                    return a
                }
                Op::And if y == 0 => return b,
                Op::And if y == all => return a,
                Op::Or if y == all => return b,
                Op::Mul if y == 0 => return b,
                Op::Mul | Op::UDiv if y == 1 => return a,
                Op::URem if y == 1 => return self.constant(0, w),
                _ => {}
            }
            match (op, self.node(a).clone()) {
                (Op::Add, Node::Bin(Op::Add, x, c)) if self.as_const(c).is_some() => {
                    let k = self.constant(self.as_const(c).unwrap().wrapping_add(y), w);
                    return self.bin(Op::Add, x, k);
                }
                (Op::Sub, _) => {
                    let k = self.constant((0u128).wrapping_sub(y), w);
                    return self.bin(Op::Add, a, k);
                }
                (Op::Xor, Node::Bin(Op::Xor, x, c)) if self.as_const(c).is_some() => {
                    let k = self.constant(self.as_const(c).unwrap() ^ y, w);
                    return self.bin(Op::Xor, x, k);
                }
                (Op::And, Node::Bin(Op::And, x, c)) if self.as_const(c).is_some() => {
                    let k = self.constant(self.as_const(c).unwrap() & y, w);
                    return self.bin(Op::And, x, k);
                }
                (_, Node::Ite(c, t, f))
                    if self.as_const(t).is_some() && self.as_const(f).is_some() =>
                {
                    let t2 = self.bin(op, t, b);
                    let f2 = self.bin(op, f, b);
                    return self.ite(c, t2, f2);
                }
                _ => {}
            }
            // and with a low mask is an extract
            if op == Op::And && w > 1 && y != 0 && (y & (y + 1)) == 0 {
                let n = 128 - y.leading_zeros();
                if n < w {
                    let x = self.extract(0, n, a);
                    return self.zext(x, w);
                }
            }
            // shifts by constants as extract/concat
            if op == Op::LShr && y < w as u128 {
                let n = w - y as u32;
                let x = self.extract(y as u32, n, a);
                return self.zext(x, w);
            }
            if op == Op::Shl && y < w as u128 {
                let n = w - y as u32;
                let x = self.extract(0, n, a);
                let z = self.constant(0, y as u32);
                return self.concat(x, z);
            }
            if matches!(op, Op::Shl | Op::LShr) && y >= w as u128 {
                return self.constant(0, w);
            }
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.constant(0, w),
                _ => {}
            }
        }
        // or of disjoint zext / shifted concat: combine
        if matches!(op, Op::Or | Op::Add | Op::Xor) {
            if let Some(r) = self.or_as_concat(a, b, w) {
                return r;
            }
            if let Some(r) = self.or_as_concat(b, a, w) {
                return r;
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    /// hi = concat(x, 0_k), lo = zext(y) with width(y) <= k
    fn or_as_concat(&mut self, hi: E, lo: E, w: u32) -> Option<E> {
        if let (Node::Concat(x, z), Node::ZExt(y)) = (self.node(hi).clone(), self.node(lo).clone())
        {
            if self.as_const(z) == Some(0) && self.width(y) <= self.width(z) {
                let k = self.width(z);
                let l = self.zext(y, k);
                let r = self.concat(x, l);
                debug_assert_eq!(self.width(r), w);
                return Some(r);
            }
        }
        // hi = zext(concat(x, 0_k))
        if let (Node::ZExt(c), Node::ZExt(y)) = (self.node(hi).clone(), self.node(lo).clone()) {
            if let Node::Concat(x, z) = self.node(c).clone() {
                if self.as_const(z) == Some(0) && self.width(y) <= self.width(z) {
                    let k = self.width(z);
                    let l = self.zext(y, k);
                    let r = self.concat(x, l);
                    return Some(self.zext(r, w));
                }
            }
        }
        None
    }

    pub fn cmp(&mut self, op: Cmp, a: E, b: E) -> E {
        let w = self.width(a);
        assert_eq!(w, self.width(b), "width mismatch in {op:?}");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.constant(fold_cmp(op, x, y, w) as u128, 1);
        }
        if a == b {
            return self.constant(matches!(op, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1);
        }
        if op == Cmp::Eq && ca.is_some() {
            return self.cmp(op, b, a);
        }
        if w == 1 && op == Cmp::Eq {
            if let Some(y) = cb {
                return if y == 1 { a } else { self.not(a) };
            }
        }
        // trivial bounds
        match op {
            Cmp::Ult if cb == Some(0) => return self.constant(0, 1),
            Cmp::Ult if ca == Some(mask(w)) => return self.constant(0, 1),
            Cmp::Ule if ca == Some(0) => return self.constant(1, 1),
            Cmp::Ule if cb == Some(mask(w)) => return self.constant(1, 1),
            Cmp::Ult if cb == Some(1) => {
                let z = self.constant(0, w);
                return self.cmp(Cmp::Eq, a, z);
            }
            _ => {}
        }
        if let Some(y) = cb {
            match self.node(a).clone() {
                Node::Ite(c, t, f) if self.as_const(t).is_some() || self.as_const(f).is_some() => {
                    let t2 = self.cmp(op, t, b);
                    let f2 = self.cmp(op, f, b);
                    return self.ite(c, t2, f2);
                }
                Node::ZExt(x) => {
                    let wx = self.width(x);
                    match op {
                        Cmp::Eq => {
                            if y > mask(wx) {
                                return self.constant(0, 1);
                            }
                            let k = self.constant(y, wx);
                            return self.cmp(Cmp::Eq, x, k);
                        }
                        Cmp::Ult => {
                            if y > mask(wx) {
                                return self.constant(1, 1);
                            }
                            let k = self.constant(y, wx);
                            return self.cmp(Cmp::Ult, x, k);
                        }
                        Cmp::Ule => {
                            if y >= mask(wx) {
                                return self.constant(1, 1);
                            }
                            let k = self.constant(y, wx);
                            return self.cmp(Cmp::Ule, x, k);
                        }
                        Cmp::Slt => {
                            if sext(y, w) <= 0 {
                                return self.constant(0, 1);
                            }
                            return self.cmp(Cmp::Ult, a, b);
                        }
                        Cmp::Sle => {
                            if sext(y, w) < 0 {
                                return self.constant(0, 1);
                            }
                            return self.cmp(Cmp::Ule, a, b);
                        }
                    }
                }
                Node::SExt(x) if op == Cmp::Eq => {
                    let wx = self.width(x);
                    if sext(y & mask(wx), wx) as u128 & mask(w) != y {
                        return self.constant(0, 1);
                    }
                    let k = self.constant(y, wx);
                    return self.cmp(Cmp::Eq, x, k);
                }
                Node::Bin(Op::Xor, x, c) if op == Cmp::Eq && self.as_const(c).is_some() => {
                    let k = self.constant(self.as_const(c).unwrap() ^ y, w);
                    return self.cmp(Cmp::Eq, x, k);
                }
                Node::Bin(Op::Add, x, c) if op == Cmp::Eq && self.as_const(c).is_some() => {
                    let k = self.constant(y.wrapping_sub(self.as_const(c).unwrap()), w);
                    return self.cmp(Cmp::Eq, x, k);
                }
                Node::Concat(h, l) if op == Cmp::Eq => {
                    let wl = self.width(l);
                    let wh = self.width(h);
                    let kh = self.constant(y >> wl, wh);
                    let kl = self.constant(y & mask(wl), wl);
                    let x1 = self.cmp(Cmp::Eq, h, kh);
                    let x2 = self.cmp(Cmp::Eq, l, kl);
                    return self.bin(Op::And, x1, x2);
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            match self.node(b).clone() {
                Node::Ite(c, t, f) if self.as_const(t).is_some() || self.as_const(f).is_some() => {
                    let t2 = self.cmp(op, a, t);
                    let f2 = self.cmp(op, a, f);
                    return self.ite(c, t2, f2);
                }
                Node::ZExt(y) => {
                    let wy = self.width(y);
                    match op {
                        Cmp::Ult => {
                            if x >= mask(wy) {
                                return self.constant(0, 1);
                            }
                            let k = self.constant(x, wy);
                            return self.cmp(Cmp::Ult, k, y);
                        }
                        Cmp::Ule => {
                            if x > mask(wy) {
                                return self.constant(0, 1);
                            }
                            let k = self.constant(x, wy);
                            return self.cmp(Cmp::Ule, k, y);
                        }
                        Cmp::Slt => {
                            if sext(x, w) < 0 {
                                return self.constant(1, 1);
                            }
                            return self.cmp(Cmp::Ult, a, b);
                        }
                        Cmp::Sle => {
                            if sext(x, w) <= 0 {
                                return self.constant(1, 1);
                            }
                            return self.cmp(Cmp::Ule, a, b);
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            if self.width(x) == self.width(y) {
                let op2 = match op {
                    Cmp::Slt => Cmp::Ult,
                    Cmp::Sle => Cmp::Ule,
                    o => o,
                };
                return self.cmp(op2, x, y);
            }
        }
        if let (Node::SExt(x), Node::SExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            if self.width(x) == self.width(y) && matches!(op, Cmp::Eq | Cmp::Slt | Cmp::Sle) {
                return self.cmp(op, x, y);
            }
        }
        let (a, b) = if op == Cmp::Eq && cb.is_none() && a > b {
            (b, a)
        } else {
            (a, b)
        };
        self.mk(Node::Cmp(op, a, b), 1)
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v != 0 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.width(t);
        assert_eq!(w, self.width(f));
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        // ite(!c, t, f) -> ite(c, f, t)
        if let Node::Bin(Op::Xor, x, k) = self.node(c).clone() {
            if self.as_const(k) == Some(1) && self.width(k) == 1 {
                return self.ite(x, f, t);
            }
        }
        self.mk(Node::Ite(c, t, f), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        assert!(wa < w);
        match self.node(a).clone() {
            Node::Const(v) => self.constant(v, w),
            Node::ZExt(x) => self.mk(Node::ZExt(x), w),
            Node::Ite(c, t, f) if self.as_const(t).is_some() && self.as_const(f).is_some() => {
                let t2 = self.zext(t, w);
                let f2 = self.zext(f, w);
                self.ite(c, t2, f2)
            }
            _ => self.mk(Node::ZExt(a), w),
        }
    }

    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        assert!(wa < w);
        match self.node(a).clone() {
            Node::Const(v) => self.constant(sext(v, wa) as u128, w),
            Node::ZExt(x) => self.mk(Node::ZExt(x), w),
            Node::SExt(x) => self.mk(Node::SExt(x), w),
            Node::Ite(c, t, f) if self.as_const(t).is_some() && self.as_const(f).is_some() => {
                let t2 = self.sext(t, w);
                let f2 = self.sext(f, w);
                self.ite(c, t2, f2)
            }
            _ => self.mk(Node::SExt(a), w),
        }
    }

    pub fn extract(&mut self, lo: u32, w: u32, a: E) -> E {
        let wa = self.width(a);
        if lo == 0 && w == wa {
            return a;
        }
        assert!(lo + w <= wa);
        match self.node(a).clone() {
            Node::Const(v) => self.constant(v >> lo, w),
            Node::Extract(l2, x) => self.extract(lo + l2, w, x),
            Node::ZExt(x) => {
                let wx = self.width(x);
                if lo >= wx {
                    self.constant(0, w)
                } else if lo + w <= wx {
                    self.extract(lo, w, x)
                } else {
                    let y = self.extract(lo, wx - lo, x);
                    self.zext(y, w)
                }
            }
            Node::SExt(x) => {
                let wx = self.width(x);
                if lo + w <= wx {
                    self.extract(lo, w, x)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.mk(Node::Extract(lo, a), w)
                }
            }
            Node::Concat(h, l) => {
                let wl = self.width(l);
                if lo + w <= wl {
                    self.extract(lo, w, l)
                } else if lo >= wl {
                    self.extract(lo - wl, w, h)
                } else {
                    let l2 = self.extract(lo, wl - lo, l);
                    let h2 = self.extract(0, lo + w - wl, h);
                    self.concat(h2, l2)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x2 = self.extract(lo, w, x);
                let y2 = self.extract(lo, w, y);
                self.bin(op, x2, y2)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x2 = self.extract(0, w, x);
                let y2 = self.extract(0, w, y);
                self.bin(op, x2, y2)
            }
            Node::Ite(c, t, f) => {
                let t2 = self.extract(lo, w, t);
                let f2 = self.extract(lo, w, f);
                self.ite(c, t2, f2)
            }
            _ => self.mk(Node::Extract(lo, a), w),
        }
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.width(h), self.width(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        match (self.node(h).clone(), self.node(l).clone()) {
            (Node::Const(a), Node::Const(b)) => return self.constant((a << wl) | b, w),
            (Node::Const(0), _) => return self.zext(l, w),
            (Node::Extract(lh, x), Node::Extract(ll, y)) if x == y && lh == ll + wl => {
                return self.extract(ll, w, x)
            }
            // x[hi:..] ++ x (where l is the whole low part)
            (Node::Extract(lh, x), Node::Concat(m, k)) => {
                if let Node::Extract(lm, y) = self.node(m).clone() {
                    if x == y && lh == lm + self.width(m) {
                        let hm = self.extract(lm, wh + self.width(m), x);
                        return self.concat(hm, k);
                    }
                }
            }
            (Node::ZExt(x), _) => {
                // zext(x) ++ l = zext(x ++ l)
                if self.width(x) + wl < w {
                    let c = self.concat(x, l);
                    return self.zext(c, w);
                }
            }
            (Node::Ite(c, t, f), Node::Ite(c2, t2, f2)) if c == c2 => {
                let a = self.concat(t, t2);
                let b = self.concat(f, f2);
                return self.ite(c, a, b);
            }
            (Node::Ite(c, t, f), Node::Const(_)) => {
                let a = self.concat(t, l);
                let b = self.concat(f, l);
                return self.ite(c, a, b);
            }
            _ => {}
        }
        // (x ++ y) ++ z -> x ++ (y ++ z) keeps adjacent extracts mergeable
        if let Node::Concat(a, b) = self.node(h).clone() {
            let bl = self.concat(b, l);
            if !matches!(self.node(bl), Node::Concat(p, q) if *p == b && *q == l) {
                return self.concat(a, bl);
            }
        }
        self.mk(Node::Concat(h, l), w)
    }

    pub fn fbin(&mut self, op: FOp, a: E, b: E) -> E {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(fold_fbin(op, x, y, w), w);
        }
        self.mk(Node::FBin(op, a, b), w)
    }

    pub fn fsqrt(&mut self, a: E) -> E {
        let w = self.width(a);
        if let Some(x) = self.as_const(a) {
            let v = if w == 32 {
                f32::from_bits(x as u32).sqrt().to_bits() as u128
            } else {
                f64::from_bits(x as u64).sqrt().to_bits() as u128
            };
            return self.constant(v, w);
        }
        self.mk(Node::FSqrt(a), w)
    }

    pub fn fconv(&mut self, k: FConv, a: E, w: u32) -> E {
        let wa = self.width(a);
        if let Some(x) = self.as_const(a) {
            return self.constant(fold_fconv(k, x, wa, w), w);
        }
        if k == FConv::FToF && wa == w {
            return a;
        }
        self.mk(Node::FConv(k, a), w)
    }

    pub fn f_isnan(&mut self, a: E) -> E {
        let w = self.width(a);
        let (m, inf) = if w == 32 {
            (0x7fff_ffffu128, 0x7f80_0000u128)
        } else {
            (0x7fff_ffff_ffff_ffffu128, 0x7ff0_0000_0000_0000u128)
        };
        let m = self.constant(m, w);
        let inf = self.constant(inf, w);
        let x = self.bin(Op::And, a, m);
        self.cmp(Cmp::Ult, inf, x)
    }

    /// ordered equality of two non-NaN values
    fn f_eq_nn(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        let m = self.constant(mask(w) >> 1, w);
        let o = self.bin(Op::Or, a, b);
        let o = self.bin(Op::And, o, m);
        let z = self.constant(0, w);
        let bothzero = self.cmp(Cmp::Eq, o, z);
        let same = self.cmp(Cmp::Eq, a, b);
        self.bin(Op::Or, same, bothzero)
    }

    fn f_lt_nn(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        let sa = self.extract(w - 1, 1, a);
        let sb = self.extract(w - 1, 1, b);
        let m = self.constant(mask(w) >> 1, w);
        let o = self.bin(Op::Or, a, b);
        let o = self.bin(Op::And, o, m);
        let z = self.constant(0, w);
        let bothzero = self.cmp(Cmp::Eq, o, z);
        let nz = self.not(bothzero);
        let gt = self.cmp(Cmp::Ult, b, a);
        let lt = self.cmp(Cmp::Ult, a, b);
        let f = self.constant(0, 1);
        let neg = self.ite(sb, gt, nz);
        let pos = self.ite(sb, f, lt);
        self.ite(sa, neg, pos)
    }

    /// LLVM fcmp predicate
    pub fn fcmp(&mut self, pred: &str, a: E, b: E) -> E {
        let na = self.f_isnan(a);
        let nb = self.f_isnan(b);
        let uno = self.bin(Op::Or, na, nb);
        let ord = self.not(uno);
        let rel = match &pred[1..] {
            "eq" => self.f_eq_nn(a, b),
            "ne" => {
                let e = self.f_eq_nn(a, b);
                self.not(e)
            }
            "lt" => self.f_lt_nn(a, b),
            "gt" => self.f_lt_nn(b, a),
            "le" => {
                let g = self.f_lt_nn(b, a);
                self.not(g)
            }
            "ge" => {
                let g = self.f_lt_nn(a, b);
                self.not(g)
            }
            _ => {
                return match pred {
                    "ord" => ord,
                    "uno" => uno,
                    "true" => self.constant(1, 1),
                    "false" => self.constant(0, 1),
                    _ => panic!("fcmp {pred}"),
                }
            }
        };
        match (&pred[..1], pred) {
            (_, "ord") => ord,
            (_, "uno") => uno,
            ("o", _) => self.bin(Op::And, ord, rel),
            ("u", _) => self.bin(Op::Or, uno, rel),
            _ => panic!("fcmp {pred}"),
        }
    }

    /// Evaluate under an assignment of the variables (missing variables are 0).
    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        if let Node::Const(v) = self.node(e) {
            return *v;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        // explicit stack: expression DAGs can be deep
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let (n, w) = &self.nodes[x as usize];
            let w = *w;
            let kids: [Option<E>; 3] = match n {
                Node::Const(_) | Node::Var(_) => [None, None, None],
                Node::Bin(_, a, b)
                | Node::Cmp(_, a, b)
                | Node::Concat(a, b)
                | Node::FBin(_, a, b) => [Some(*a), Some(*b), None],
                Node::Ite(a, b, c) => [Some(*a), Some(*b), Some(*c)],
                Node::ZExt(a)
                | Node::SExt(a)
                | Node::Extract(_, a)
                | Node::FConv(_, a)
                | Node::FSqrt(a) => [Some(*a), None, None],
            };
            let mut ready = true;
            for k in kids.iter().flatten() {
                if !memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: &E| memo[k];
            let v = match n {
                Node::Const(v) => *v,
                Node::Var(i) => model.get(*i as usize).copied().unwrap_or(0) & mask(w),
                Node::Bin(op, a, b) => fold_bin(*op, g(a), g(b), w),
                Node::Cmp(op, a, b) => fold_cmp(*op, g(a), g(b), self.width(*a)) as u128,
                Node::Ite(c, t, f) => {
                    if g(c) != 0 {
                        g(t)
                    } else {
                        g(f)
                    }
                }
                Node::ZExt(a) => g(a),
                Node::SExt(a) => sext(g(a), self.width(*a)) as u128 & mask(w),
                Node::Extract(lo, a) => (g(a) >> lo) & mask(w),
                Node::Concat(h, l) => (g(h) << self.width(*l)) | g(l),
                Node::FBin(op, a, b) => fold_fbin(*op, g(a), g(b), w),
                Node::FConv(k, a) => fold_fconv(*k, g(a), self.width(*a), w),
                Node::FSqrt(a) => {
                    if w == 32 {
                        f32::from_bits(g(a) as u32).sqrt().to_bits() as u128
                    } else {
                        f64::from_bits(g(a) as u64).sqrt().to_bits() as u128
                    }
                }
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e]
    }
}
