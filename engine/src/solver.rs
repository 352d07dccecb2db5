//! SMT-LIB2 back end: one long-lived solver process, fresh sliced query each time.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_ms: f64,
    pub max_ms: f64,
    pub assert_queries: u64,
    pub errors: u64,
    pub cross_checked: u64,
}

pub struct Solver {
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    cross: Option<Box<Solver>>,
    pub timeout_ms: u64,
    cache: HashMap<Vec<E>, Res>,
    pub stats: Stats,
}

impl Solver {
    pub fn new(cmd: Vec<String>, cross: Option<Vec<String>>, timeout_ms: u64) -> Self {
        Solver {
            cmd,
            child: None,
            cross: cross.map(|c| Box::new(Solver::new(c, None, timeout_ms))),
            timeout_ms,
            cache: HashMap::new(),
            stats: Stats::default(),
        }
    }

    fn start(&mut self) {
        let mut child = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {:?}: {e}", self.cmd));
        let i = child.stdin.take().unwrap();
        let o = BufReader::new(child.stdout.take().unwrap());
        self.child = Some((child, i, o));
    }

    /// Is `conj` satisfiable together? `goal` marks a property query (for the statistics).
    pub fn check(&mut self, ar: &Arena, conj: &[E], goal: bool) -> Res {
        let mut key: Vec<E> = conj.to_vec();
        key.sort_unstable();
        key.dedup();
        if goal {
            self.stats.assert_queries += 1;
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        let (text, vars) = render(ar, &key);
        let r = self.ask(&text, &vars, ar);
        let ms = t.elapsed().as_secs_f64() * 1000.0;
        self.stats.queries += 1;
        self.stats.time_ms += ms;
        if ms > self.stats.max_ms {
            self.stats.max_ms = ms;
        }
        // a model is only believed if it evaluates to true on our side
        let r = match r {
            Res::Sat(m) => {
                let mut full = vec![0u128; ar.vars.len()];
                for (v, x) in m.iter() {
                    full[*v as usize] = *x;
                }
                let mut memo = HashMap::new();
                if key.iter().all(|e| ar.eval(*e, &full, &mut memo) == 1) {
                    Res::Sat(m)
                } else {
                    self.stats.errors += 1;
                    eprintln!("symx: solver model does not satisfy the query\n{text}\n{m:?}");
                    Res::Unknown
                }
            }
            r => r,
        };
        if goal || self.cross.is_some() {
            if let (Some(c), Res::Unsat) = (self.cross.as_mut(), &r) {
                let r2 = c.ask(&text, &vars, ar);
                match r2 {
                    Res::Unsat => self.stats.cross_checked += 1,
                    Res::Unknown => {}
                    Res::Sat(_) => {
                        eprintln!("symx: solvers disagree\n{text}");
                        self.stats.errors += 1;
                    }
                }
            }
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn ask(&mut self, text: &str, vars: &[u32], ar: &Arena) -> Res {
        if self.child.is_none() {
            self.start();
        }
        let is_z3 = self.cmd[0].contains("z3");
        let mut q = String::new();
        q.push_str("(reset)\n");
        if is_z3 {
            let _ = writeln!(q, "(set-option :timeout {})", self.timeout_ms);
        } else {
            let _ = writeln!(q, "(set-option :tlimit-per {})", self.timeout_ms);
        }
        q.push_str("(set-option :produce-models true)\n");
        q.push_str("(set-logic ALL)\n");
        q.push_str(text);
        q.push_str("(check-sat)\n(echo \"done\")\n");
        let (_, i, o) = self.child.as_mut().unwrap();
        if i.write_all(q.as_bytes()).and_then(|_| i.flush()).is_err() {
            self.stats.errors += 1;
            self.child = None;
            return Res::Unknown;
        }
        let mut ans = Res::Unknown;
        let mut bad = false;
        loop {
            let mut line = String::new();
            match o.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    self.stats.errors += 1;
                    self.child = None;
                    return Res::Unknown;
                }
                Ok(_) => {}
            }
            let l = line.trim();
            if l == "done" || l == "\"done\"" {
                break;
            }
            match l {
                "sat" => ans = Res::Sat(Rc::new(Vec::new())),
                "unsat" => ans = Res::Unsat,
                "unknown" | "timeout" => ans = Res::Unknown,
                _ if l.contains("error") => {
                    bad = true;
                    eprintln!("symx: solver error: {l}");
                }
                _ => {}
            }
        }
        if bad {
            self.stats.errors += 1;
            return Res::Unknown;
        }
        if let Res::Sat(_) = ans {
            if vars.is_empty() {
                return ans;
            }
            let mut q = String::from("(get-value (");
            for v in vars {
                let _ = write!(q, "{} ", ar.vars[*v as usize].name);
            }
            q.push_str("))\n(echo \"done\")\n");
            let (_, i, o) = self.child.as_mut().unwrap();
            if i.write_all(q.as_bytes()).and_then(|_| i.flush()).is_err() {
                self.child = None;
                return Res::Unknown;
            }
            let mut text = String::new();
            loop {
                let mut line = String::new();
                match o.read_line(&mut line) {
                    Ok(0) | Err(_) => {
                        self.child = None;
                        return Res::Unknown;
                    }
                    Ok(_) => {}
                }
                let l = line.trim();
                if l == "done" || l == "\"done\"" {
                    break;
                }
                text.push_str(&line);
            }
            let mut m = Vec::new();
            let toks: Vec<&str> = text
                .split(|c: char| c.is_whitespace() || c == '(' || c == ')')
                .filter(|s| !s.is_empty())
                .collect();
            let mut k = 0;
            while k + 1 < toks.len() {
                let name = toks[k];
                let val = toks[k + 1];
                k += 2;
                let x = if let Some(h) = val.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).unwrap()
                } else if let Some(b) = val.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).unwrap()
                } else if val == "true" {
                    1
                } else if val == "false" {
                    0
                } else if val == "_" {
                    // (_ bvN w)
                    let x = toks[k].trim_start_matches("bv").parse().unwrap();
                    k += 2;
                    x
                } else {
                    eprintln!("symx: cannot read model value {val}");
                    return Res::Unknown;
                };
                for v in vars {
                    if ar.vars[*v as usize].name == name {
                        m.push((*v, x));
                    }
                }
            }
            return Res::Sat(Rc::new(m));
        }
        ans
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some((c, _, _)) = self.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn bv(x: E) -> String {
    format!("e{x}")
}

/// As a bit-vector even if the expression is a boolean.
fn as_bv(ar: &Arena, x: E) -> String {
    if ar.width(x) == 1 {
        format!("(ite e{x} #b1 #b0)")
    } else {
        bv(x)
    }
}

fn cst(v: u128, w: u32) -> String {
    if w == 1 {
        (if v != 0 { "true" } else { "false" }).to_string()
    } else {
        format!("(_ bv{v} {w})")
    }
}

fn fp(ar: &Arena, x: E) -> String {
    if ar.width(x) == 32 {
        format!("((_ to_fp 8 24) e{x})")
    } else {
        format!("((_ to_fp 11 53) e{x})")
    }
}

fn render(ar: &Arena, conj: &[E]) -> (String, Vec<u32>) {
    let mut out = String::new();
    let mut vars = Vec::new();
    let mut seen: HashSet<E> = HashSet::new();
    let mut order = Vec::new();
    let mut stack: Vec<(E, bool)> = conj.iter().map(|e| (*e, false)).collect();
    while let Some((e, done)) = stack.pop() {
        if done {
            order.push(e);
            continue;
        }
        if !seen.insert(e) {
            continue;
        }
        stack.push((e, true));
        match ar.node(e) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) | Node::FBin(_, a, b) => {
                stack.push((*a, false));
                stack.push((*b, false));
            }
            Node::Ite(a, b, c) => {
                stack.push((*a, false));
                stack.push((*b, false));
                stack.push((*c, false));
            }
            Node::ZExt(a)
            | Node::SExt(a)
            | Node::Extract(_, a)
            | Node::FConv(_, a)
            | Node::FSqrt(a) => stack.push((*a, false)),
        }
    }
    // `order` is a post-order only if children finish before parents; with the explicit
    // (e, done) scheme a shared child may be finished later than one of its parents, so sort
    // by id: a node's children always have smaller ids.
    order.sort_unstable();
    for e in order {
        let w = ar.width(e);
        let sort = if w == 1 {
            "Bool".to_string()
        } else {
            format!("(_ BitVec {w})")
        };
        let body = match ar.node(e) {
            Node::Const(v) => cst(*v, w),
            Node::Var(i) => {
                vars.push(*i);
                let n = &ar.vars[*i as usize].name;
                let _ = writeln!(out, "(declare-const {n} {sort})");
                n.clone()
            }
            Node::Bin(op, a, b) => {
                if w == 1 {
                    let o = match op {
                        Op::And | Op::Mul => "and",
                        Op::Or => "or",
                        Op::Xor | Op::Add | Op::Sub => "xor",
                        _ => panic!("1-bit {op:?}"),
                    };
                    format!("({o} e{a} e{b})")
                } else {
                    let o = match op {
                        Op::Add => "bvadd",
                        Op::Sub => "bvsub",
                        Op::Mul => "bvmul",
                        Op::UDiv => "bvudiv",
                        Op::SDiv => "bvsdiv",
                        Op::URem => "bvurem",
                        Op::SRem => "bvsrem",
                        Op::Shl => "bvshl",
                        Op::LShr => "bvlshr",
                        Op::AShr => "bvashr",
                        Op::And => "bvand",
                        Op::Or => "bvor",
                        Op::Xor => "bvxor",
                    };
                    format!("({o} e{a} e{b})")
                }
            }
            Node::Cmp(op, a, b) => {
                let (x, y) = if *op == Cmp::Eq {
                    (bv(*a), bv(*b))
                } else {
                    (as_bv(ar, *a), as_bv(ar, *b))
                };
                let o = match op {
                    Cmp::Eq => "=",
                    Cmp::Ult => "bvult",
                    Cmp::Ule => "bvule",
                    Cmp::Slt => "bvslt",
                    Cmp::Sle => "bvsle",
                };
                format!("({o} {x} {y})")
            }
            Node::Ite(c, t, f) => format!("(ite e{c} e{t} e{f})"),
            Node::ZExt(a) => format!("((_ zero_extend {}) {})", w - ar.width(*a), as_bv(ar, *a)),
            Node::SExt(a) => format!("((_ sign_extend {}) {})", w - ar.width(*a), as_bv(ar, *a)),
            Node::Extract(lo, a) => {
                let x = format!("((_ extract {} {}) {})", lo + w - 1, lo, as_bv(ar, *a));
                if w == 1 {
                    format!("(= {x} #b1)")
                } else {
                    x
                }
            }
            Node::Concat(h, l) => format!("(concat {} {})", as_bv(ar, *h), as_bv(ar, *l)),
            Node::FBin(op, a, b) => {
                let (x, y) = (fp(ar, *a), fp(ar, *b));
                match op {
                    FOp::Add => format!("(fp.to_ieee_bv (fp.add RNE {x} {y}))"),
                    FOp::Sub => format!("(fp.to_ieee_bv (fp.sub RNE {x} {y}))"),
                    FOp::Mul => format!("(fp.to_ieee_bv (fp.mul RNE {x} {y}))"),
                    FOp::Div => format!("(fp.to_ieee_bv (fp.div RNE {x} {y}))"),
                    FOp::Rem => panic!("symbolic frem"),
                }
            }
            Node::FSqrt(a) => format!("(fp.to_ieee_bv (fp.sqrt RNE {}))", fp(ar, *a)),
            Node::FConv(k, a) => {
                let wa = ar.width(*a);
                let t = if w == 32 { "8 24" } else { "11 53" };
                match k {
                    FConv::FToF => {
                        format!("(fp.to_ieee_bv ((_ to_fp {t}) RNE {}))", fp(ar, *a))
                    }
                    FConv::UToF => format!(
                        "(fp.to_ieee_bv ((_ to_fp_unsigned {t}) RNE {}))",
                        as_bv(ar, *a)
                    ),
                    FConv::SToF => {
                        format!("(fp.to_ieee_bv ((_ to_fp {t}) RNE {}))", as_bv(ar, *a))
                    }
                    FConv::FToU => {
                        let x = fp(ar, *a);
                        let ta = if wa == 32 { "8 24" } else { "11 53" };
                        let hi = format!("((_ to_fp_unsigned {ta}) RTZ {})", cst(mask(w), w));
                        let z = cst(0, w);
                        let m = cst(mask(w), w);
                        format!("(ite (fp.isNaN {x}) {z} (ite (fp.lt {x} ((_ to_fp {ta}) RNE 0.0)) {z} (ite (fp.gt {x} {hi}) {m} ((_ fp.to_ubv {w}) RTZ {x}))))")
                    }
                    FConv::FToS => {
                        let x = fp(ar, *a);
                        let ta = if wa == 32 { "8 24" } else { "11 53" };
                        let maxv = mask(w) >> 1;
                        let minv = maxv + 1;
                        let hi = format!("((_ to_fp {ta}) RTZ {})", cst(maxv, w));
                        let lo = format!("((_ to_fp {ta}) RTZ {})", cst(minv, w));
                        format!("(ite (fp.isNaN {x}) {} (ite (fp.lt {x} {lo}) {} (ite (fp.gt {x} {hi}) {} ((_ fp.to_sbv {w}) RTZ {x}))))", cst(0, w), cst(minv, w), cst(maxv, w))
                    }
                }
            }
        };
        let _ = writeln!(out, "(define-fun e{e} () {sort} {body})");
    }
    for e in conj {
        let _ = writeln!(out, "(assert e{e})");
    }
    vars.sort_unstable();
    vars.dedup();
    (out, vars)
}
