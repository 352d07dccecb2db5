//! Parser for the textual LLVM IR that rustc emits (the subset it uses).

use std::collections::HashMap;
use std::rc::Rc;

pub type TyRef = Rc<Ty>;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    FOther(u32),
    Ptr,
    Array(TyRef, u64),
    Vector(TyRef, u64),
    Struct(Vec<TyRef>, bool),
    Label,
    Metadata,
    Token,
    Opaque,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::FOther(w) => (*w as u64 / 8).min(16),
            Ty::Array(t, _) => t.align(),
            Ty::Vector(t, n) => (t.size() * n).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }

    /// alloc size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::FOther(w) => *w as u64 / 8,
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => {
                if let Ty::Int(1) = **t {
                    (*n + 7) / 8
                } else {
                    align_up(t.size() * n, self.align())
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }

    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(t, _) | Ty::Vector(t, _) => t.size() * i as u64,
            _ => panic!("field_offset of {self:?}"),
        }
    }

    pub fn field(&self, i: usize) -> TyRef {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(t, _) | Ty::Vector(t, _) => t.clone(),
            _ => panic!("field of {self:?}"),
        }
    }

    /// width of a first-class scalar
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::FOther(w) => *w,
            _ => panic!("width of {self:?}"),
        }
    }

    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..))
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(32);
    let mut i = 0;
    let ident = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && ident(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                let n = &s[st..en];
                v.push(if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                });
            }
            b'!' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && ident(b[j]) {
                    j += 1;
                }
                v.push(Tok::Meta(&s[st..j]));
                i = j;
            }
            b'#' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                v.push(Tok::Attr(&s[st..j]));
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::CStr(&s[st..j]));
                i = j + 1;
            }
            _ if ident(c) => {
                let st = i;
                let mut j = i;
                while j < b.len() && ident(b[j]) {
                    j += 1;
                }
                // "..." and "." only
                v.push(Tok::Word(&s[st..j]));
                i = j;
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v
}

/// Constants as parsed; globals are resolved by the engine.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    FloatBits(u128),
    Zero,
    Undef,
    Bytes(Rc<Vec<u8>>),
    Agg(Vec<(TyRef, Cst)>),
    Splat(Box<(TyRef, Cst)>),
    Global(String),
    Gep(TyRef, Box<Cst>, Vec<(TyRef, Cst)>),
    Cast(TyRef, Box<Cst>, TyRef),
    Bin(String, TyRef, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Cst(TyRef, Cst),
    /// a constant after resolution
    Val(Val),
}

/// A run-time value: concrete bits, a symbolic expression, or an aggregate.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128, u32),
    S(crate::expr::E),
    A(Rc<Vec<Val>>),
}

impl Inst {
    /// Visit every operand.
    pub fn operands(&mut self, f: &mut dyn FnMut(&mut Opnd)) {
        match self {
            Inst::Alloca(_, n) => {
                if let Some((_, o)) = n {
                    f(o)
                }
            }
            Inst::Load(_, p) => f(p),
            Inst::Store(_, a, b) => {
                f(a);
                f(b)
            }
            Inst::Gep(_, p, idx) => {
                f(p);
                for (_, o) in idx {
                    f(o)
                }
            }
            Inst::Bin(_, _, a, b) | Inst::Icmp(_, _, a, b) | Inst::Fcmp(_, _, a, b) => {
                f(a);
                f(b)
            }
            Inst::FNeg(_, a) | Inst::Cast(_, _, a, _) | Inst::Freeze(_, a) => f(a),
            Inst::Select(_, c, _, a, b) => {
                f(c);
                f(a);
                f(b)
            }
            Inst::Phi(_, v) => {
                for (o, _) in v {
                    f(o)
                }
            }
            Inst::ExtractValue(_, a, _) => f(a),
            Inst::InsertValue(_, a, _, b, _) => {
                f(a);
                f(b)
            }
            Inst::ExtractElement(_, a, b) => {
                f(a);
                f(b)
            }
            Inst::InsertElement(_, a, b, c) => {
                f(a);
                f(b);
                f(c)
            }
            Inst::Shuffle(_, a, b, _) => {
                f(a);
                f(b)
            }
            Inst::Call { callee, args, .. } => {
                if let Callee::Indirect(o) = callee {
                    f(o)
                }
                for (_, o) in args {
                    f(o)
                }
            }
            Inst::CmpXchg(_, a, b, c) => {
                f(a);
                f(b);
                f(c)
            }
            Inst::AtomicRmw(_, _, a, b) => {
                f(a);
                f(b)
            }
            Inst::CondBr(c, _, _) => f(c),
            Inst::Switch(_, c, _, _) => f(c),
            Inst::Ret(Some((_, o))) => f(o),
            Inst::Ret(None)
            | Inst::Br(_)
            | Inst::Fence
            | Inst::Unreachable
            | Inst::LandingPad
            | Inst::Unsupported(_) => {}
        }
    }
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(TyRef, Option<(TyRef, Opnd)>),
    Load(TyRef, Opnd),
    Store(TyRef, Opnd, Opnd),
    Gep(TyRef, Opnd, Vec<(TyRef, Opnd)>),
    Bin(&'static str, TyRef, Opnd, Opnd),
    FNeg(TyRef, Opnd),
    Icmp(&'static str, TyRef, Opnd, Opnd),
    Fcmp(&'static str, TyRef, Opnd, Opnd),
    Cast(&'static str, TyRef, Opnd, TyRef),
    Select(TyRef, Opnd, TyRef, Opnd, Opnd),
    Phi(TyRef, Vec<(Opnd, u32)>),
    ExtractValue(TyRef, Opnd, Vec<usize>),
    InsertValue(TyRef, Opnd, TyRef, Opnd, Vec<usize>),
    ExtractElement(TyRef, Opnd, Opnd),
    InsertElement(TyRef, Opnd, Opnd, Opnd),
    Shuffle(TyRef, Opnd, Opnd, Vec<Option<u32>>),
    Freeze(TyRef, Opnd),
    Call {
        ret: TyRef,
        callee: Callee,
        args: Vec<(TyRef, Opnd)>,
        normal: Option<u32>,
    },
    CmpXchg(TyRef, Opnd, Opnd, Opnd),
    AtomicRmw(&'static str, TyRef, Opnd, Opnd),
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(TyRef, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(TyRef, Opnd)>),
    Unreachable,
    LandingPad,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opnd),
    Asm,
}

pub struct Line {
    pub dst: Option<u32>,
    pub inst: Inst,
    pub dbg: u32,
    /// of atomic accesses and fences: ATOMIC, ACQUIRE, RELEASE, FAIL_ACQUIRE
    pub order: u8,
}
pub const ATOMIC: u8 = 1;
pub const ACQUIRE: u8 = 2;
pub const RELEASE: u8 = 4;
pub const FAIL_ACQUIRE: u8 = 8;

pub struct Block {
    pub insts: Vec<Line>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

pub struct GlobalDef {
    pub ty: TyRef,
    pub init: Option<Cst>,
}

pub struct Module {
    pub text: &'static str,
    /// name -> (start of the define line, end of body)
    pub funcs: HashMap<&'static str, (usize, usize)>,
    pub globals: HashMap<&'static str, &'static str>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub named: HashMap<&'static str, &'static str>,
    pub meta_start: usize,
}

fn global_name(line: &'static str) -> (&'static str, usize) {
    // line starts with '@'
    let b = line.as_bytes();
    if b[1] == b'"' {
        let e = line[2..].find('"').unwrap() + 2;
        (&line[2..e], e + 1)
    } else {
        let mut j = 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1;
        }
        (&line[1..j], j)
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            funcs: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
            named: HashMap::new(),
            meta_start: text.len(),
        };
        let mut pos = 0;
        let mut cur: Option<(&'static str, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            let l = line.trim_end();
            if let Some((name, st)) = cur {
                if l == "}" {
                    m.funcs.insert(name, (st, pos));
                    cur = None;
                }
                continue;
            }
            if l.starts_with("define ") {
                let at = l.find(" @").unwrap() + 1;
                let (name, _) = global_name(&text[start + at..start + l.len()]);
                cur = Some((name, start));
            } else if l.starts_with('@') {
                let (name, e) = global_name(&text[start..start + l.len()]);
                let rest = text[start + e..start + l.len()].trim_start();
                let rest = rest.strip_prefix("= ").unwrap_or(rest);
                if rest.contains(" alias ") || rest.starts_with("alias ") {
                    if let Some(k) = rest.rfind('@') {
                        let t: &'static str = &rest[k..];
                        m.aliases.insert(name, global_name(t).0);
                    }
                } else {
                    m.globals.insert(name, rest);
                }
            } else if l.starts_with('%') {
                if let Some(k) = l.find(" = type ") {
                    m.named
                        .insert(l[1..k].trim_matches('"'), &text[start + k + 8..start + l.len()]);
                }
            } else if l.starts_with('!') && m.meta_start == text.len() {
                m.meta_start = start;
            }
        }
        m
    }

    pub fn parse_global(&self, name: &str) -> Option<GlobalDef> {
        let s = self.globals.get(name)?;
        let toks = lex(s);
        let mut p = P {
            m: self,
            t: toks,
            i: 0,
            regs: None,
        };
        // skip linkage etc. until "global" or "constant"
        let mut external = false;
        loop {
            match p.next() {
                Some(Tok::Word("global")) | Some(Tok::Word("constant")) => break,
                Some(Tok::Word("external")) | Some(Tok::Word("extern_weak")) => external = true,
                Some(_) => {}
                None => return None,
            }
        }
        let ty = p.ty();
        if external {
            return Some(GlobalDef { ty, init: None });
        }
        let c = p.cst(&ty);
        Some(GlobalDef { ty, init: Some(c) })
    }

    pub fn parse_func(&self, name: &str) -> Option<Func> {
        let (st, en) = *self.funcs.get(name)?;
        let body = &self.text[st..en];
        let nl = body.find('\n').unwrap();
        let head = &body[..nl];
        let mut regs = Regs::default();
        let mut f = Func {
            name: name.to_string(),
            params: Vec::new(),
            nregs: 0,
            blocks: Vec::new(),
            dbg: 0,
        };
        // header
        {
            let toks = lex(head);
            let at = toks
                .iter()
                .position(|t| matches!(t, Tok::Global(_)))
                .unwrap();
            for k in at..toks.len() {
                if let (Tok::Meta("dbg"), Some(Tok::Meta(n))) = (&toks[k], toks.get(k + 1)) {
                    f.dbg = n.parse().unwrap_or(0);
                }
            }
            let mut p = P {
                m: self,
                t: toks,
                i: at + 1,
                regs: None,
            };
            p.expect(b'(');
            let mut n = 0u32;
            loop {
                if p.peek_p(b')') {
                    break;
                }
                if p.peek() == Some(&Tok::Word("...")) {
                    p.i += 1;
                    continue;
                }
                let _t = p.ty();
                p.skip_attrs();
                let nm = match p.peek() {
                    Some(Tok::Local(l)) => {
                        let l = l.to_string();
                        p.i += 1;
                        l
                    }
                    _ => n.to_string(),
                };
                n += 1;
                let r = regs.get(&nm);
                f.params.push(r);
                if p.peek_p(b',') {
                    p.i += 1;
                }
            }
        }
        // blocks: first pass for labels
        let mut lines: Vec<String> = Vec::new();
        let mut it = body[nl + 1..].lines().peekable();
        while let Some(l) = it.next() {
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') || l == "}" || tl.starts_with("#dbg_") {
                continue;
            }
            let mut s = l.to_string();
            if l.starts_with(' ') {
                let is_switch = tl.starts_with("switch ");
                if is_switch && !tl.contains(']') {
                    for l2 in it.by_ref() {
                        s.push(' ');
                        s.push_str(l2.trim());
                        if l2.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
                let body = match tl.find(" = ") {
                    Some(k) if tl.starts_with('%') => &tl[k + 3..],
                    _ => tl,
                };
                if body.starts_with("invoke ") {
                    s.push(' ');
                    s.push_str(it.next().unwrap().trim());
                }
                if body.starts_with("landingpad ") {
                    while let Some(n) = it.peek() {
                        let t = n.trim_start();
                        if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter")
                        {
                            it.next();
                        } else {
                            break;
                        }
                    }
                }
            }
            lines.push(s);
        }
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let first_has_label = lines
            .first()
            .map(|l| !l.starts_with(' '))
            .unwrap_or(false);
        if !first_has_label {
            labels.insert(f.params.len().to_string(), 0);
            nb = 1;
        }
        for l in &lines {
            if !l.starts_with(' ') {
                let k = label_name(l);
                labels.insert(k, nb);
                nb += 1;
            }
        }
        let mut cur: Option<Block> = if first_has_label {
            None
        } else {
            Some(Block { insts: Vec::new() })
        };
        for l in &lines {
            if !l.starts_with(' ') {
                if let Some(b) = cur.take() {
                    f.blocks.push(b);
                }
                cur = Some(Block { insts: Vec::new() });
                continue;
            }
            let line = self.parse_inst(l, &mut regs, &labels);
            cur.as_mut().unwrap().insts.push(line);
        }
        if let Some(b) = cur.take() {
            f.blocks.push(b);
        }
        f.nregs = regs.n as usize;
        Some(f)
    }

    fn parse_inst(&self, l: &str, regs: &mut Regs, labels: &HashMap<String, u32>) -> Line {
        let mut toks = lex(l);
        // debug location
        let mut dbg = 0;
        for k in 0..toks.len() {
            if let (Tok::Meta("dbg"), Some(Tok::Meta(n))) = (&toks[k], toks.get(k + 1)) {
                dbg = n.parse().unwrap_or(0);
            }
        }
        let mut dst = None;
        let mut i = 0;
        if let (Tok::Local(n), Some(Tok::P(b'='))) = (&toks[0], toks.get(1)) {
            dst = Some(regs.get(n));
            i = 2;
        }
        // cut trailing metadata attachments ", !dbg !1"
        let mut cut = toks.len();
        let mut depth = 0i32;
        for k in i..toks.len() {
            match &toks[k] {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => depth += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => depth -= 1,
                Tok::Meta(_)
                    if depth == 0
                        && k > i
                        && matches!(toks[k - 1], Tok::P(b','))
                        && cut == toks.len() =>
                {
                    cut = k - 1
                }
                _ => {}
            }
        }
        toks.truncate(cut);
        let mut order = 0;
        if let Some(Tok::Word(w)) = toks.get(i) {
            let atomic = matches!(toks.get(i + 1), Some(Tok::Word("atomic")));
            if matches!(*w, "cmpxchg" | "atomicrmw" | "fence") || (matches!(*w, "load" | "store") && atomic) {
                let orders: Vec<&str> = toks
                    .iter()
                    .filter_map(|t| match t {
                        Tok::Word(w @ ("unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst")) => Some(*w),
                        _ => None,
                    })
                    .collect();
                order = ATOMIC;
                match orders.first() {
                    Some(&"acquire") => order |= ACQUIRE,
                    Some(&"release") => order |= RELEASE,
                    Some(&("acq_rel" | "seq_cst")) => order |= ACQUIRE | RELEASE,
                    _ => {}
                }
                if matches!(orders.get(1), Some(&("acquire" | "seq_cst"))) {
                    order |= FAIL_ACQUIRE;
                }
                if *w == "fence" && l.contains("singlethread") {
                    order = 0;
                }
            }
        }
        let mut p = P {
            m: self,
            t: toks,
            i,
            regs: Some(regs),
        };
        let inst = p.inst(labels).unwrap_or_else(|| Inst::Unsupported(l.to_string()));
        Line { dst, inst, dbg, order }
    }
}

fn label_name(l: &str) -> String {
    if let Some(r) = l.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        l[..l.find(':').unwrap()].to_string()
    }
}

#[derive(Default)]
pub struct Regs {
    map: HashMap<String, u32>,
    n: u32,
}

impl Regs {
    fn get(&mut self, s: &str) -> u32 {
        if let Some(r) = self.map.get(s) {
            return *r;
        }
        let r = self.n;
        self.map.insert(s.to_string(), r);
        self.n += 1;
        r
    }
}

struct P<'a, 'b, 'm> {
    m: &'m Module,
    t: Vec<Tok<'a>>,
    i: usize,
    regs: Option<&'b mut Regs>,
}

const BINOPS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
    "fadd", "fsub", "fmul", "fdiv", "frem",
];
const CASTS: &[&str] = &[
    "trunc",
    "zext",
    "sext",
    "fptrunc",
    "fpext",
    "fptoui",
    "fptosi",
    "uitofp",
    "sitofp",
    "ptrtoint",
    "ptrtoaddr",
    "inttoptr",
    "bitcast",
    "addrspacecast",
];
const PREDS: &[&str] = &[
    "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "oeq", "one", "ogt", "oge",
    "olt", "ole", "ord", "ueq", "une", "uno", "true", "false",
];
const RMW: &[&str] = &[
    "xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin",
];

fn stat(list: &[&'static str], s: &str) -> Option<&'static str> {
    list.iter().find(|x| **x == s).copied()
}

impl<'a, 'b, 'm> P<'a, 'b, 'm> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Option<Tok<'a>> {
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        t
    }
    fn peek_p(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        assert!(
            t == Some(Tok::P(c)),
            "expected {:?} got {:?} in {:?}",
            c as char,
            t,
            self.t
        );
    }
    fn word(&mut self, w: &str) -> bool {
        if self.peek() == Some(&Tok::Word(w)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.peek_p(b'(') {
            let mut d = 0;
            loop {
                match self.next() {
                    Some(Tok::P(b'(')) => d += 1,
                    Some(Tok::P(b')')) => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    None => panic!("unbalanced"),
                    _ => {}
                }
            }
        }
    }

    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(
                    *w,
                    "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80"
                        | "label" | "metadata" | "token"
                ) || (w.len() > 1
                    && w.as_bytes()[0] == b'i'
                    && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }

    /// attributes before a type (return attributes, calling conventions, flags)
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            match self.next() {
                Some(Tok::Word(_)) => self.skip_parens(),
                Some(Tok::Attr(_)) => {}
                Some(Tok::Str(_)) => {}
                t => panic!("type expected, got {t:?} in {:?}", self.t),
            }
        }
    }

    /// attributes between a type and a value
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = *w;
                    let first = w.as_bytes()[0];
                    if first.is_ascii_digit()
                        || first == b'-'
                        || matches!(
                            w,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer"
                                | "none" | "getelementptr" | "splat" | "asm" | "blockaddress"
                        )
                        || BINOPS.contains(&w)
                        || CASTS.contains(&w)
                    {
                        return;
                    }
                    self.i += 1;
                    if w == "align" && !self.peek_p(b'(') {
                        self.i += 1;
                    } else {
                        self.skip_parens();
                    }
                }
                Some(Tok::Attr(_)) => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }

    fn ty(&mut self) -> TyRef {
        let t = self.next();
        let base = match t {
            Some(Tok::Word(w)) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.word("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(16),
                "fp128" => Ty::FOther(128),
                "x86_fp80" => Ty::FOther(80),
                "label" => Ty::Label,
                "metadata" => Ty::Metadata,
                "token" => Ty::Token,
                "opaque" => Ty::Opaque,
                _ => Ty::Int(
                    w[1..]
                        .parse()
                        .unwrap_or_else(|_| panic!("type {w} in {:?}", self.t)),
                ),
            },
            Some(Tok::P(b'[')) => {
                let n = self.num();
                assert!(self.word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Array(t, n)
            }
            Some(Tok::P(b'{')) => Ty::Struct(self.fields(b'}'), false),
            Some(Tok::P(b'<')) => {
                if self.peek_p(b'{') {
                    self.i += 1;
                    let f = self.fields(b'}');
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num();
                    assert!(self.word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(t, n)
                }
            }
            Some(Tok::Local(n)) => {
                let s = self.m.named.get(n).unwrap_or_else(|| panic!("type %{n}"));
                let mut p = P {
                    m: self.m,
                    t: lex(s),
                    i: 0,
                    regs: None,
                };
                return p.ty();
            }
            t => panic!("type? {t:?} in {:?}", self.t),
        };
        Rc::new(base)
    }

    fn fields(&mut self, close: u8) -> Vec<TyRef> {
        let mut v = Vec::new();
        while !self.peek_p(close) {
            v.push(self.ty());
            if self.peek_p(b',') {
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }

    fn num(&mut self) -> u64 {
        match self.next() {
            Some(Tok::Word(w)) => w.parse().unwrap(),
            t => panic!("num {t:?}"),
        }
    }

    fn opnd(&mut self, ty: &TyRef) -> Opnd {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.to_string();
            self.i += 1;
            return Opnd::Reg(self.regs.as_mut().unwrap().get(&n));
        }
        Opnd::Cst(ty.clone(), self.cst(ty))
    }

    fn list(&mut self, close: u8) -> Vec<(TyRef, Cst)> {
        let mut v = Vec::new();
        while !self.peek_p(close) {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            if self.peek_p(b',') {
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }

    fn cst(&mut self, ty: &TyRef) -> Cst {
        match self.next() {
            Some(Tok::Word(w)) => match w {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.expect(b')');
                    Cst::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.peek_p(b'(') {
                        self.i += 1;
                    }
                    // inrange(...) comes before the operand list
                    if let (Some(Tok::Word(_)), true) = (self.t.get(self.i - 1), true) {
                        if self.t[self.i - 1] == Tok::Word("inrange") {
                            self.skip_parens();
                            while !self.peek_p(b'(') {
                                self.i += 1;
                            }
                        }
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    self.expect(b',');
                    let pt = self.ty();
                    let base = self.cst(&pt);
                    let mut idx = Vec::new();
                    while self.peek_p(b',') {
                        self.i += 1;
                        let it = self.ty();
                        let c = self.cst(&it);
                        idx.push((it, c));
                    }
                    self.expect(b')');
                    Cst::Gep(t, Box::new(base), idx)
                }
                _ if CASTS.contains(&w) => {
                    self.expect(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    assert!(self.word("to"));
                    let t2 = self.ty();
                    self.expect(b')');
                    Cst::Cast(t, Box::new(c), t2)
                }
                _ if BINOPS.contains(&w) => {
                    while !self.peek_p(b'(') {
                        self.i += 1;
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    let a = self.cst(&t);
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.cst(&t2);
                    self.expect(b')');
                    Cst::Bin(w.to_string(), t, Box::new(a), Box::new(b))
                }
                _ => self.number(w, ty),
            },
            Some(Tok::CStr(s)) => Cst::Bytes(Rc::new(unescape(s))),
            Some(Tok::Global(n)) => Cst::Global(n.to_string()),
            Some(Tok::P(b'[')) => Cst::Agg(self.list(b']')),
            Some(Tok::P(b'{')) => Cst::Agg(self.list(b'}')),
            Some(Tok::P(b'<')) => {
                if self.peek_p(b'{') {
                    self.i += 1;
                    let l = self.list(b'}');
                    self.expect(b'>');
                    Cst::Agg(l)
                } else {
                    Cst::Agg(self.list(b'>'))
                }
            }
            t => panic!("const? {t:?} in {:?}", self.t),
        }
    }

    fn number(&mut self, w: &str, ty: &TyRef) -> Cst {
        match &**ty {
            Ty::F32 | Ty::F64 => {
                let d = if let Some(h) = w.strip_prefix("0x") {
                    // hexadecimal is always the bits of a double
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else if let Some(h) = w.strip_prefix("f0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap();
                    return Cst::FloatBits(bits as u128);
                } else {
                    match w {
                        "+inf" | "inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" | "qnan" | "nan" => f64::NAN,
                        "-qnan" => -f64::NAN,
                        _ => w.parse().unwrap_or_else(|_| panic!("float {w}")),
                    }
                };
                if **ty == Ty::F32 {
                    let bits = if d.is_nan() {
                        // keep sign and payload
                        let b = d.to_bits();
                        (((b >> 63) as u32) << 31)
                            | 0x7f80_0000
                            | (((b & 0x000f_ffff_ffff_ffff) >> 29) as u32)
                    } else {
                        (d as f32).to_bits()
                    };
                    Cst::FloatBits(bits as u128)
                } else {
                    Cst::FloatBits(d.to_bits() as u128)
                }
            }
            _ => {
                let v = if let Some(s) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    u128::from_str_radix(s, 16).unwrap()
                } else if let Some(n) = w.strip_prefix('-') {
                    (n.parse::<u128>().unwrap()).wrapping_neg()
                } else {
                    w.parse::<u128>()
                        .unwrap_or_else(|_| panic!("number {w} in {:?}", self.t))
                };
                let width = match &**ty {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                Cst::Int(v & crate::expr::mask(width.min(128)))
            }
        }
    }

    fn label(&mut self, labels: &HashMap<String, u32>) -> u32 {
        assert!(self.word("label"));
        match self.next() {
            Some(Tok::Local(n)) => labels[n],
            t => panic!("label {t:?}"),
        }
    }

    fn ty_opnd(&mut self) -> (TyRef, Opnd) {
        let t = self.ty();
        let o = self.opnd(&t);
        (t, o)
    }

    fn indices(&mut self) -> Vec<usize> {
        let mut v = Vec::new();
        while self.peek_p(b',') {
            self.i += 1;
            v.push(self.num() as usize);
        }
        v
    }

    fn inst(&mut self, labels: &HashMap<String, u32>) -> Option<Inst> {
        let op = match self.next() {
            Some(Tok::Word(w)) => w,
            _ => return None,
        };
        Some(match op {
            "alloca" => {
                self.word("inalloca");
                let t = self.ty();
                let mut n = None;
                if self.peek_p(b',') {
                    self.i += 1;
                    if self.at_type() {
                        n = Some(self.ty_opnd());
                    }
                }
                Inst::Alloca(t, n)
            }
            "load" => {
                while self.word("atomic") || self.word("volatile") {}
                let t = self.ty();
                self.expect(b',');
                let (_, p) = self.ty_opnd();
                Inst::Load(t, p)
            }
            "store" => {
                while self.word("atomic") || self.word("volatile") {}
                let (t, v) = self.ty_opnd();
                self.expect(b',');
                let (_, p) = self.ty_opnd();
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while matches!(self.peek(), Some(Tok::Word("inbounds" | "nuw" | "nusw"))) {
                    self.i += 1;
                }
                let t = self.ty();
                self.expect(b',');
                let (_, p) = self.ty_opnd();
                let mut idx = Vec::new();
                while self.peek_p(b',') {
                    self.i += 1;
                    idx.push(self.ty_opnd());
                }
                Inst::Gep(t, p, idx)
            }
            "icmp" => {
                while self.word("samesign") {}
                let pr = match self.next() {
                    Some(Tok::Word(w)) => stat(PREDS, w)?,
                    _ => return None,
                };
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let b = self.opnd(&t);
                Inst::Icmp(pr, t, a, b)
            }
            "fcmp" => {
                self.fmf();
                let pr = match self.next() {
                    Some(Tok::Word(w)) => stat(PREDS, w)?,
                    _ => return None,
                };
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let b = self.opnd(&t);
                Inst::Fcmp(pr, t, a, b)
            }
            "fneg" => {
                self.fmf();
                let (t, a) = self.ty_opnd();
                Inst::FNeg(t, a)
            }
            "select" => {
                self.fmf();
                let (ct, c) = self.ty_opnd();
                self.expect(b',');
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                Inst::Select(ct, c, t, a, b)
            }
            "phi" => {
                self.fmf();
                let t = self.ty();
                let mut v = Vec::new();
                loop {
                    self.expect(b'[');
                    let o = self.opnd(&t);
                    self.expect(b',');
                    let l = match self.next() {
                        Some(Tok::Local(n)) => labels[n],
                        x => panic!("phi {x:?}"),
                    };
                    self.expect(b']');
                    v.push((o, l));
                    if self.peek_p(b',') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Inst::Phi(t, v)
            }
            "extractvalue" => {
                let (t, a) = self.ty_opnd();
                Inst::ExtractValue(t, a, self.indices())
            }
            "insertvalue" => {
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (t2, b) = self.ty_opnd();
                Inst::InsertValue(t, a, t2, b, self.indices())
            }
            "extractelement" => {
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                Inst::ExtractElement(t, a, b)
            }
            "insertelement" => {
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                self.expect(b',');
                let (_, c) = self.ty_opnd();
                Inst::InsertElement(t, a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                self.expect(b',');
                let mt = self.ty();
                let n = match &*mt {
                    Ty::Vector(_, n) => *n as usize,
                    _ => return None,
                };
                let c = self.cst(&mt);
                let m = match c {
                    Cst::Zero => vec![Some(0); n],
                    Cst::Undef => vec![None; n],
                    Cst::Splat(x) => match x.1 {
                        Cst::Int(v) => vec![Some(v as u32); n],
                        _ => return None,
                    },
                    Cst::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Cst::Int(v) => Some(v as u32),
                            Cst::Zero => Some(0),
                            _ => None,
                        })
                        .collect(),
                    _ => return None,
                };
                Inst::Shuffle(t, a, b, m)
            }
            "freeze" => {
                let (t, a) = self.ty_opnd();
                Inst::Freeze(t, a)
            }
            "br" => {
                if self.peek() == Some(&Tok::Word("label")) {
                    Inst::Br(self.label(labels))
                } else {
                    let (_, c) = self.ty_opnd();
                    self.expect(b',');
                    let a = self.label(labels);
                    self.expect(b',');
                    let b = self.label(labels);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.ty_opnd();
                self.expect(b',');
                let d = self.label(labels);
                self.expect(b'[');
                let mut v = Vec::new();
                while !self.peek_p(b']') {
                    let ct = self.ty();
                    let k = match self.cst(&ct) {
                        Cst::Int(v) => v,
                        Cst::Zero => 0,
                        _ => return None,
                    };
                    self.expect(b',');
                    let l = self.label(labels);
                    v.push((k, l));
                }
                Inst::Switch(t, c, d, v)
            }
            "ret" => {
                if self.word("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.ty_opnd()))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" | "landingpad" => Inst::LandingPad,
            "fence" => Inst::Fence,
            "cmpxchg" => {
                while self.word("weak") || self.word("volatile") {}
                let (_, p) = self.ty_opnd();
                self.expect(b',');
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                Inst::CmpXchg(t, p, a, b)
            }
            "atomicrmw" => {
                while self.word("volatile") {}
                let o = match self.next() {
                    Some(Tok::Word(w)) => stat(RMW, w)?,
                    _ => return None,
                };
                let (_, p) = self.ty_opnd();
                self.expect(b',');
                let (t, a) = self.ty_opnd();
                Inst::AtomicRmw(o, t, p, a)
            }
            "tail" | "musttail" | "notail" => return self.inst(labels),
            "call" | "invoke" => self.call(op == "invoke", labels)?,
            _ => {
                if let Some(o) = stat(BINOPS, op) {
                    while matches!(self.peek(), Some(Tok::Word(w)) if !self.at_type() && !w.is_empty())
                    {
                        self.i += 1;
                    }
                    let (t, a) = self.ty_opnd();
                    self.expect(b',');
                    let b = self.opnd(&t);
                    Inst::Bin(o, t, a, b)
                } else if let Some(o) = stat(CASTS, op) {
                    while matches!(self.peek(), Some(Tok::Word(w)) if !self.at_type() && !w.is_empty())
                    {
                        self.i += 1;
                    }
                    let (t, a) = self.ty_opnd();
                    assert!(self.word("to"), "{:?}", self.t);
                    let t2 = self.ty();
                    Inst::Cast(o, t, a, t2)
                } else {
                    return None;
                }
            }
        })
    }

    fn fmf(&mut self) {
        while matches!(
            self.peek(),
            Some(Tok::Word(
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ))
        ) {
            self.i += 1;
        }
    }

    fn call(&mut self, invoke: bool, labels: &HashMap<String, u32>) -> Option<Inst> {
        self.skip_to_type();
        let ret = self.ty();
        // explicit function type (varargs)
        if self.peek_p(b'(') {
            self.skip_parens();
        }
        let callee = match self.peek()?.clone() {
            Tok::Global(n) => {
                self.i += 1;
                Callee::Direct(Rc::from(n))
            }
            Tok::Word("asm") => {
                while !self.peek_p(b'(') {
                    self.i += 1;
                }
                Callee::Asm
            }
            _ => {
                let pt = Rc::new(Ty::Ptr);
                Callee::Indirect(self.opnd(&pt))
            }
        };
        self.expect(b'(');
        let mut args = Vec::new();
        while !self.peek_p(b')') {
            let t = self.ty();
            if *t == Ty::Metadata {
                // skip to , or ) at this level
                let mut d = 0;
                loop {
                    match self.peek()? {
                        Tok::P(b'(') => d += 1,
                        Tok::P(b')') if d == 0 => break,
                        Tok::P(b')') => d -= 1,
                        Tok::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
            } else {
                self.skip_attrs();
                let o = self.opnd(&t);
                args.push((t, o));
            }
            if self.peek_p(b',') {
                self.i += 1;
            }
        }
        self.expect(b')');
        let mut normal = None;
        if invoke {
            while !(self.peek() == Some(&Tok::Word("to"))) {
                self.i += 1;
            }
            self.i += 1;
            normal = Some(self.label(labels));
        }
        Some(Inst::Call {
            ret,
            callee,
            args,
            normal,
        })
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}
