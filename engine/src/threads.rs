//! Threads of the program: every interleaving of their synchronising steps within a bound on the number of preemptions.
//!
//! Before each atomic access, futex call and spin hint the next thread is drawn as a symbolic input, one path per
//! value. Accesses that are not atomic are not interleaved; instead every pair of conflicting ones has to be ordered
//! by synchronisation (vector clocks, from the orderings of the atomic accesses), else the path ends in a data race.
//! Atomic accesses are sequentially consistent in the values they read.
use super::*;

pub const MAX: usize = 4;
type Clock = [u32; MAX];

#[derive(Clone, PartialEq)]
enum Status {
    Ready,
    /// waits at a futex
    Waits(u64, u32),
    /// waits for the others to end
    Joins,
    Ended,
}

#[derive(Clone)]
struct Thread {
    frames: Vec<Frame>,
    keys: Rc<Vec<Val>>,
    status: Status,
    own: HashMap<u32, u64>,
    clock: Clock,
    /// what a fence would acquire, and what has been released by one
    seen: Clock,
    fenced: Clock,
    /// spins without giving way
    greedy: bool,
    /// spins, until another thread writes
    idle: bool,
}

#[derive(Clone)]
pub struct Threads {
    pub cur: usize,
    /// threads that haven't ended
    pub alive: usize,
    list: Vec<Thread>,
    /// the thread was just chosen for its next step
    chosen: bool,
    preempted: u64,
    /// the conjunction of the first constraints of the path
    folded: Option<(E, usize)>,
    clocks: HashMap<u64, Clock>,
    pub shadow: HashMap<u64, Rc<Shadow>>,
    pub errno: u64,
    pub keys: u32,
}

/// who last read and wrote the bytes of an object
#[derive(Clone)]
pub struct Shadow {
    writes: Vec<(u8, u32)>,
    reads: Vec<Clock>,
}

fn join(a: &mut Clock, b: &Clock) {
    for i in 0..MAX {
        a[i] = a[i].max(b[i]);
    }
}

impl Threads {
    pub fn new() -> Threads {
        Threads {
            cur: 0,
            alive: 1,
            list: vec![Thread::new([1; MAX])],
            chosen: false,
            preempted: 0,
            folded: None,
            clocks: HashMap::new(),
            shadow: HashMap::new(),
            errno: 0,
            keys: 0,
        }
    }
    pub fn several(&self) -> bool {
        self.list.len() > 1
    }
    pub fn acquire(&mut self, addr: u64, sync: bool) {
        if let Some(c) = self.clocks.get(&addr) {
            let t = &mut self.list[self.cur];
            join(if sync { &mut t.clock } else { &mut t.seen }, c);
        }
    }
    pub fn release(&mut self, addr: u64, sync: bool, more: bool) {
        let t = &mut self.list[self.cur];
        let c = if sync { t.clock } else { t.fenced };
        let e = self.clocks.entry(addr).or_insert([0; MAX]);
        if more {
            join(e, &c);
        } else {
            *e = c;
        }
        if sync {
            t.clock[self.cur] += 1;
        }
        self.wrote();
    }
    /// those that spin may see something else now
    fn wrote(&mut self) {
        for i in 0..self.list.len() {
            self.list[i].idle &= i == self.cur;
        }
    }
    pub fn fence(&mut self, acquire: bool, release: bool) {
        let t = &mut self.list[self.cur];
        if acquire {
            let s = t.seen;
            join(&mut t.clock, &s);
        }
        if release {
            t.fenced = t.clock;
            t.clock[self.cur] += 1;
        }
    }
    fn ready(&self) -> Vec<usize> {
        let l: Vec<usize> = (0..self.list.len()).filter(|i| *i != self.cur && self.list[*i].status == Status::Ready).collect();
        let busy: Vec<usize> = l.iter().copied().filter(|i| !self.list[*i].idle).collect();
        if busy.is_empty() && self.list[self.cur].status != Status::Ready {
            l
        } else {
            busy
        }
    }
}
impl Thread {
    fn new(clock: Clock) -> Thread {
        Thread {
            frames: Vec::new(),
            keys: Rc::new(Vec::new()),
            status: Status::Ready,
            own: HashMap::new(),
            clock,
            seen: [0; MAX],
            fenced: [0; MAX],
            greedy: false,
            idle: false,
        }
    }
}

/// a call that has been finished, maybe on another thread
pub const FINISHED: Val = Val::C(0, 0);

impl Engine {
    fn switch(&mut self, st: &mut State, to: usize) {
        let cur = st.th.cur;
        if cur != to {
            std::mem::swap(&mut st.frames, &mut st.th.list[cur].frames);
            std::mem::swap(&mut st.keys, &mut st.th.list[cur].keys);
            std::mem::swap(&mut st.frames, &mut st.th.list[to].frames);
            std::mem::swap(&mut st.keys, &mut st.th.list[to].keys);
            st.th.cur = to;
        }
        st.th.chosen = true;
    }

    /// the condition of the path so far
    pub fn condition(&mut self, st: &mut State) -> E {
        let (mut e, n) = match st.th.folded {
            Some(x) => x,
            None => (self.ar.constant(1, 1), 0),
        };
        for c in &st.pc[n..] {
            e = self.ar.bin(Op::And, e, *c);
        }
        st.th.folded = Some((e, st.pc.len()));
        e
    }
    /// nothing else is possible here
    pub fn only(&mut self, st: &mut State, e: E) {
        if self.m.text.contains("@symx_spawn(") {
            let c = self.condition(st);
            let n = self.ar.not(c);
            let x = self.ar.bin(Op::Or, n, e);
            self.within.push(x);
        }
    }
    /// is there a schedule, and input, that none of the paths that ended well is about?
    pub fn all_schedules(&mut self) {
        if self.ended.is_empty() || !self.violations.is_empty() || !self.inconclusive.is_empty() || self.deadline_hit {
            return;
        }
        let mut q = self.within.clone();
        for e in &self.ended {
            q.push(self.ar.not(*e));
        }
        self.schedules = self.ended.len() as u64;
        match self.solver.check(&self.ar, &q, true) {
            Res::Unsat => {}
            Res::Sat(m) => self.inconclusive.push(format!("a schedule was not followed: {m:?}")),
            Res::Unknown => self.inconclusive.push("the solver can't say that every schedule was followed".into()),
        }
    }

    /// draws who goes on: (thread, spinning without giving way, preempting)
    fn pick(&mut self, st: &mut State, l: &[(usize, bool, bool)], yields: bool) {
        let v = self.fresh(st, 8);
        let var = match &v {
            Val::S(e) => self.ar.var_index(*e),
            _ => unreachable!(),
        };
        let mut any = self.ar.constant(0, 1);
        for (t, greedy, _) in l {
            let c = self.cmp(Cmp::Eq, &v, &Val::C(*t as u128 | if *greedy { 0x80 } else { 0 }, 8));
            let e = self.e(&c);
            any = self.ar.bin(Op::Or, any, e);
        }
        // where there is no choice, the input says nothing
        let free = l.len() > 1;
        if free {
            self.only(st, any);
        }
        let take = |s: &mut Self, st: &mut State, (t, greedy, cost): (usize, bool, bool)| {
            let code = t as u128 | if greedy { 0x80 } else { 0 };
            let c = s.cmp(Cmp::Eq, &v, &Val::C(code, 8));
            let e = s.e(&c);
            if free {
                s.constrain(st, e);
            }
            let m = Rc::make_mut(&mut st.model);
            if m.len() <= var {
                m.resize(var + 1, 0);
            }
            m[var] = code;
            let cur = st.th.cur;
            st.th.list[cur].greedy = greedy;
            st.th.list[cur].idle = yields && t != cur;
            st.th.preempted += cost as u64;
            s.switch(st, t);
        };
        for x in &l[1..] {
            let mut other = st.clone();
            self.forks += 1;
            take(self, &mut other, *x);
            self.work.push(other);
        }
        take(self, st, l[0]);
    }

    /// the step synchronises: another thread may go first
    pub fn point(&mut self, st: &mut State, line: &Line) -> R<bool> {
        let (yields, gentle) = match &line.inst {
            Inst::Load(_, p) | Inst::Store(_, _, p) | Inst::CmpXchg(_, p, _, _) | Inst::AtomicRmw(_, _, p, _) => {
                if line.order == 0 {
                    return Ok(false);
                }
                let p = self.get(st, p);
                let a = self.concretize(st, &p)? as u64;
                let id = a >> 32;
                // nobody panics
                if id >= GLOBAL_ID && id < STACK_ID && self.global_names[(id - GLOBAL_ID) as usize].contains("GLOBAL_PANIC_COUNT") {
                    return Ok(false);
                }
                (false, matches!(line.inst, Inst::Load(..)))
            }
            Inst::Call { callee: Callee::Direct(n), args, .. } => match &**n {
                "syscall" => {
                    if !matches!(self.get(st, &args[0].1), Val::C(202, _)) {
                        return Ok(false);
                    }
                    (false, false)
                }
                "sched_yield" | "llvm.x86.sse2.pause" => (true, true),
                _ => return Ok(false),
            },
            _ => return Ok(false),
        };
        if std::mem::replace(&mut st.th.chosen, false) {
            return Ok(false);
        }
        let cur = st.th.cur;
        if st.th.list[cur].greedy {
            if gentle {
                return Ok(false);
            }
            st.th.list[cur].greedy = false;
        }
        let bound = *self.params.get(&8).unwrap_or(&2);
        let mut l = Vec::new();
        let ready = st.th.ready();
        if yields {
            l.extend(ready.iter().map(|t| (*t, false, false)));
            l.push((cur, !l.is_empty(), false));
        } else {
            l.push((cur, false, false));
            if st.th.preempted < bound {
                l.extend(ready.iter().map(|t| (*t, false, true)));
            }
        }
        self.pick(st, &l, yields);
        Ok(true)
    }

    /// the thread can't go on
    fn give_up(&mut self, st: &mut State) -> R<()> {
        let l: Vec<_> = st.th.ready().into_iter().map(|t| (t, false, false)).collect();
        if l.is_empty() {
            let m = st.model.clone();
            self.violation(st, "deadlock", &format!("{} threads wait for each other", st.th.alive), &m);
            return Err(Stop::Violation);
        }
        self.pick(st, &l, false);
        Ok(())
    }

    pub fn thread_ends(&mut self, st: &mut State) -> R<()> {
        let cur = st.th.cur;
        st.th.list[cur].status = Status::Ended;
        st.th.alive -= 1;
        if st.th.alive == 1 && st.th.list[0].status == Status::Joins {
            st.th.list[0].status = Status::Ready;
        }
        self.give_up(st)?;
        if st.th.alive == 1 {
            self.joined(st);
        }
        Ok(())
    }

    /// one thread is left: whatever the others did was before
    fn joined(&mut self, st: &mut State) {
        st.th.shadow.clear();
        for i in 1..st.th.list.len() {
            let c = st.th.list[i].clock;
            join(&mut st.th.list[0].clock, &c);
        }
    }

    pub fn spawn(&mut self, st: &mut State, a: &[Val]) -> R<()> {
        let f = self.u64arg(st, &a[0])?;
        if f >> 32 != FUNC_ID || st.th.list.len() >= MAX {
            return inc("threads");
        }
        let name = self.func_names[((f & 0xffff_ffff) / 16 - 1) as usize].clone();
        let f = self.function(&name)?;
        let mut fr = self.frame(f.clone(), 0);
        for (p, v) in f.params.iter().zip(&a[1..]) {
            fr.regs[*p as usize] = v.clone();
        }
        let cur = st.th.cur;
        let new = st.th.list.len();
        let mut t = Thread::new(st.th.list[cur].clock);
        t.frames.push(fr);
        t.clock[new] += 1;
        st.th.list.push(t);
        st.th.list[cur].clock[cur] += 1;
        st.mem.stacks.push(Vec::new());
        st.th.alive += 1;
        st.th.chosen = false;
        Ok(())
    }

    pub fn join(&mut self, st: &mut State) -> R<Option<Val>> {
        if st.th.alive == 1 {
            return Ok(Some(Val::C(0, 1)));
        }
        self.finish_call(st, Val::C(0, 1));
        let cur = st.th.cur;
        st.th.list[cur].status = Status::Joins;
        self.give_up(st)?;
        Ok(Some(FINISHED))
    }

    pub fn futex(&mut self, st: &mut State, a: &[Val]) -> R<Val> {
        let addr = self.u64arg(st, &a[1])?;
        let op = self.u64arg(st, &a[2])? & 0x7f;
        let n = self.u64arg(st, &a[3])?;
        match op {
            0 | 9 => {
                if self.u64arg(st, &a[4])? != 0 {
                    return inc("futex with a time limit");
                }
                let v = self.load_int(st, addr, 4, 32)?;
                if self.concretize(st, &v)? as u32 != n as u32 {
                    if st.th.errno == 0 {
                        st.th.errno = match self.malloc(st, 4)? {
                            Val::C(x, _) => x as u64,
                            _ => unreachable!(),
                        };
                    }
                    let e = st.th.errno;
                    self.store_int(st, e, &Val::C(11, 32))?;
                    return Ok(Val::C(u64::MAX as u128, 64));
                }
                let bits = if op == 9 { self.u64arg(st, &a[6])? as u32 } else { !0 };
                self.finish_call(st, Val::C(0, 64));
                let cur = st.th.cur;
                st.th.list[cur].status = Status::Waits(addr, bits);
                self.give_up(st)?;
                Ok(FINISHED)
            }
            1 | 10 => {
                st.th.wrote();
                let bits = if op == 10 { self.u64arg(st, &a[6])? as u32 } else { !0 };
                let mut woken = 0;
                for t in &mut st.th.list {
                    if let Status::Waits(x, b) = t.status {
                        if x == addr && b & bits != 0 && woken < n {
                            t.status = Status::Ready;
                            woken += 1;
                        }
                    }
                }
                Ok(Val::C(woken as u128, 64))
            }
            _ => inc(format!("futex operation {op}")),
        }
    }

    /// the thread's own copy of a thread-local variable
    pub fn own(&mut self, st: &mut State, p: &Val) -> R<Val> {
        let cur = st.th.cur;
        let a = self.u64arg(st, p)?;
        let id = a >> 32;
        if cur == 0 || id < GLOBAL_ID || id >= STACK_ID {
            return Ok(p.clone());
        }
        let g = (id - GLOBAL_ID) as u32;
        let base = match st.th.list[cur].own.get(&g) {
            Some(x) => *x,
            None => {
                let o = self.global_obj(g)?;
                st.mem.heap.push(Some(o));
                let x = (HEAP_ID + st.mem.heap.len() as u64 - 1) << 32;
                st.th.list[cur].own.insert(g, x);
                x
            }
        };
        Ok(Val::C((base | a & 0xffff_ffff) as u128, 64))
    }

    /// an access that is not atomic
    pub fn touch(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> R<()> {
        let id = addr >> 32;
        let cur = st.th.cur;
        if id >= STACK_ID && id < HEAP_ID && (id / STACK_ID - 1) as usize == cur {
            return Ok(());
        }
        let size = self.obj(st, id, addr)?.bytes.len();
        let from = (addr & 0xffff_ffff) as usize;
        let to = (from + n as usize).min(size);
        let mut race = false;
        {
            let th = &mut st.th;
            let me = th.list[cur].clock;
            let s = th.shadow.entry(id).or_insert_with(|| {
                Rc::new(Shadow {
                    writes: vec![(0, 0); size],
                    reads: vec![[0; MAX]; size],
                })
            });
            let s = Rc::make_mut(s);
            for i in from..to {
                let (w, at) = s.writes[i];
                race |= at > me[w as usize];
                if write {
                    for k in 0..MAX {
                        race |= s.reads[i][k] > me[k] && k != cur;
                    }
                    s.writes[i] = (cur as u8, me[cur]);
                } else {
                    s.reads[i][cur] = me[cur];
                }
            }
        }
        if race {
            let m = st.model.clone();
            self.violation(st, "race", "an unordered access", &m);
            return Err(Stop::Violation);
        }
        Ok(())
    }
}
