//! The symbolic executor: states, instruction semantics, forking, merging.
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Sat, Solver};
use crate::term::{mask, Op, Pool, T};
use crate::fx::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(T),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub inst: u32,
    pub iters: Vec<u32>,
    pub ret: u32,
    pub stack_base: usize,
}

pub enum Trace {
    Nil,
    Input(T, u32, u32, Rc<Trace>), // term, bits, tag
    Obs(V, Rc<Trace>),
    Merge(T, Rc<Trace>, Rc<Trace>), // condition of the first
}

pub type Model = Rc<HashMap<u32, u128>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Model,
    pub trace: Rc<Trace>,
    pub steps: u64,
    pub merge: u32,
    pub at_merge: bool,
    pub nmerged: u64,
    /// Variables the path condition leaves a single value for
    pub fixed: Rc<HashMap<u32, u128>>,
    /// Number of inputs so far
    pub nin: u32,
}

pub enum Stop {
    End,              // path finished
    Kill,             // infeasible or abandoned (already accounted for)
    Yield,            // to be rescheduled
    Forked,           // replaced by states already scheduled
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub loc: Vec<(String, String, u32)>,
    pub inputs: Vec<(u32, u32, u128)>,
    pub obs: Vec<u64>,
}
pub struct Sample {
    pub inputs: Vec<(u32, u32, u128)>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Copy, Debug)]
enum B {
    SymAlloc,
    SymDealloc,
    SymInt,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymLive,
    SymParam,
    SymSplit,
    SymMerge,
    SymWants,
    Memcpy,
    Memmove,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Getrandom,
    Nop,
    Zero,
    Trap,
    UMax,
    UMin,
    SMax,
    SMin,
    Fshl,
    Fshr,
    AddO,
    SAddO,
    SubO,
    SSubO,
    MulO,
    SMulO,
    USubSat,
    UAddSat,
    SAddSat,
    SSubSat,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    Ucmp,
    Scmp,
    Abs,
    IsConst,
    Expect,
    LoadRel,
    ThreadAddr,
    Float(u8),
    FptouiSat,
    FptosiSat,
    Unknown,
}
#[derive(Clone, Copy, Debug)]
enum Target {
    F(usize),
    B(B),
    Panic,
}

pub struct Limits {
    pub max_secs: f64,
    pub max_steps: u64, // per path
    pub max_violations: usize,
    pub samples: usize,
    pub max_states: usize,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub p: Pool,
    pub solver: Solver,
    pub params: Vec<u64>,
    pub lim: Limits,
    targets: HashMap<*const u8, Target>,
    dfs: Vec<State>,
    heap: BTreeMap<Vec<u32>, Vec<State>>,
    heap_n: usize,
    pub t0: Instant,
    // results
    pub steps: u64,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub asserts: u64,
    /// Only the checks of this property count
    pub property: Option<[u8; 3]>,
    pub assert_queries: u64,
    pub incomplete: Vec<String>,
    pub violations: Vec<Violation>,
    /// Paths that may not end: to be run natively
    pub suspects: Vec<Violation>,
    seen_viol: HashSet<String>,
    pub covers: HashMap<String, u64>,
    pub samples: Vec<Sample>,
    pub called: HashSet<usize>,
    pub peak: usize,
    pub verbose: bool,
    fresh: u64,
    inputs: HashMap<(u32, u32), T>,
}

fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        return v as i64;
    }
    let s = 64 - w;
    ((v << s) as i64) >> s
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, params: Vec<u64>, lim: Limits, timeout_ms: u32) -> Self {
        Engine {
            m,
            p: Pool::new(),
            solver: Solver::new(timeout_ms),
            params,
            lim,
            targets: HashMap::default(),
            dfs: vec![],
            heap: BTreeMap::new(),
            heap_n: 0,
            t0: Instant::now(),
            steps: 0,
            paths: 0,
            killed: 0,
            forks: 0,
            merges: 0,
            merge_fail: 0,
            asserts: 0,
            property: None,
            assert_queries: 0,
            incomplete: vec![],
            violations: vec![],
            suspects: vec![],
            seen_viol: HashSet::default(),
            covers: HashMap::default(),
            samples: vec![],
            called: HashSet::default(),
            peak: 0,
            verbose: false,
            fresh: 0,
            inputs: HashMap::default(),
        }
    }

    // ---------- globals ----------
    fn init_global(&self, ob: &mut Obj, off: u64, t: &Ty, k: &K) {
        match (k, t) {
            (K::Undef, _) => {}
            (K::Zero, _) => {
                let n = t.size();
                if n > 0 {
                    ob.fill(off, n, 0)
                }
            }
            (K::Bytes(b), _) => {
                let cells: Vec<(u8, u32)> = b.iter().map(|x| (*x, CONC)).collect();
                if !cells.is_empty() {
                    ob.write_bytes(off, &cells)
                }
            }
            (K::Int(v), t) => {
                let n = ((t.bits() + 7) / 8) as u64;
                for i in 0..n {
                    ob.set(off + i, (*v >> (8 * i)) as u8, CONC);
                }
            }
            (K::Agg(v), t) => {
                for (i, k) in v.iter().enumerate() {
                    self.init_global(ob, off + t.field_off(i), &t.field(i), k);
                }
            }
        }
    }
    fn globals(&mut self) -> Table {
        let mut t = Table::default();
        for g in &self.m.globals {
            let size = g.ty.size();
            if std::env::var("SYMDBG").is_ok() { eprintln!("{} {:?} {}", g.name, g.ty, size); }
            let mut o = Obj::new(size.max(1), g.ty.align());
            if let Some(k) = &g.init {
                if size > 0 {
                    self.init_global(&mut o, 0, &g.ty, k);
                }
            }
            o.readonly = g.constant;
            t.push(o);
        }
        t
    }

    pub fn run(&mut self, entry: &str) {
        let Some(&id) = self.m.fidx.get(entry) else {
            self.incomplete.push(format!("no function {}", entry));
            return;
        };
        let f = self.m.func(id).expect("entry is defined");
        let g = self.globals();
        let s = State {
            frames: vec![Frame {
                regs: vec![V::U; f.nregs],
                f,
                block: 0,
                inst: 0,
                iters: vec![],
                ret: NONE,
                stack_base: 0,
            }],
            mem: Mem { globals: g, heap: Table::default(), stack: Table::default(), live: 0 },
            pc: vec![],
            model: Rc::new(HashMap::default()),
            trace: Rc::new(Trace::Nil),
            steps: 0,
            merge: 0,
            at_merge: false,
            nmerged: 0,
            fixed: Rc::new(HashMap::default()),
            nin: 0,
        };
        self.enter_block(&s);
        self.dfs.push(s);
        let mut tick = 0u64;
        loop {
            let next = if self.heap_n > 0 {
                let mut e = self.heap.first_entry().unwrap();
                let s = e.get_mut().pop().unwrap();
                if e.get().is_empty() {
                    e.remove();
                }
                self.heap_n -= 1;
                Some(s)
            } else {
                self.dfs.pop()
            };
            let Some(mut s) = next else { break };
            let n = self.heap_n + self.dfs.len() + 1;
            if n > self.peak {
                self.peak = n;
            }
            if n > self.lim.max_states {
                self.incomplete.push(format!("more than {} pending states", self.lim.max_states));
                break;
            }
            tick += 1;
            if tick % 8 == 0 && self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.incomplete.push(format!("time limit with {} pending states", n));
                let mut far = s;
                for x in self.dfs.drain(..).chain(std::mem::take(&mut self.heap).into_values().flatten()) {
                    if x.steps > far.steps {
                        far = x;
                    }
                }
                self.suspect(&far, "does not end within the time limit");
                break;
            }
            if self.violations.len() >= self.lim.max_violations {
                break;
            }
            if self.verbose && tick % 2000 == 0 {
                eprintln!(
                    "[{:.1}s] paths {} pending {}+{} steps {} queries {} merges {}/{} terms {}",
                    self.t0.elapsed().as_secs_f64(),
                    self.paths,
                    self.heap_n,
                    self.dfs.len(),
                    self.steps,
                    self.solver.queries,
                    self.merges,
                    self.merge_fail,
                    self.p.nodes.len()
                );
            }
            s.at_merge = false;
            loop {
                match self.exec(&mut s) {
                    Ok(()) => continue,
                    Err(Stop::End) => {
                        self.finish(&s);
                        break;
                    }
                    Err(Stop::Kill) => {
                        self.killed += 1;
                        break;
                    }
                    Err(Stop::Yield) => {
                        self.schedule(s);
                        break;
                    }
                    Err(Stop::Forked) => break,
                }
            }
        }
    }

    fn finish(&mut self, s: &State) {
        self.paths += 1;
        let n = self.paths;
        // spread samples over the exploration: 1, 2, 4, 8, ...
        if self.samples.len() < self.lim.samples && (n.is_power_of_two() || n % 97 == 0) {
            let (i, o) = self.concretize_trace(s);
            self.samples.push(Sample { inputs: i, obs: o });
        }
    }

    pub fn concretize_trace(&mut self, s: &State) -> (Vec<(u32, u32, u128)>, Vec<u64>) {
        let mut inp = vec![];
        let mut obs = vec![];
        let model = s.model.clone();
        let get = |v: u32| model.get(&v).copied().unwrap_or(0);
        let mut memo = HashMap::default();
        let mut cur = s.trace.clone();
        loop {
            let next = match &*cur {
                Trace::Nil => break,
                Trace::Input(t, bits, tag, up) => {
                    let v = self.p.eval(*t, &get, &mut memo);
                    inp.push((*bits, *tag, v));
                    up.clone()
                }
                Trace::Obs(v, up) => {
                    match v {
                        V::C(c) => obs.push(*c),
                        V::S(t) => obs.push(self.p.eval(*t, &get, &mut memo) as u64),
                        _ => obs.push(0),
                    }
                    up.clone()
                }
                Trace::Merge(c, a, b) => {
                    if self.p.eval(*c, &get, &mut memo) == 1 {
                        a.clone()
                    } else {
                        b.clone()
                    }
                }
            };
            cur = next;
        }
        inp.reverse();
        obs.reverse();
        (inp, obs)
    }

    // ---------- scheduling ----------
    fn key(&self, s: &State) -> Vec<u32> {
        let mut k = Vec::with_capacity(8 * s.frames.len());
        for f in &s.frames {
            f.f.cfg.key(&f.iters, f.block, f.inst, &mut k);
        }
        k
    }
    fn schedule(&mut self, mut s: State) {
        if s.merge == 0 {
            self.dfs.push(s);
            return;
        }
        let k = self.key(&s);
        let mut bucket = self.heap.remove(&k).unwrap_or_default();
        if s.at_merge {
            let n = bucket.len();
            for i in (0..n).rev().take(32) {
                if !bucket[i].at_merge {
                    continue;
                }
                if self.try_merge(&mut bucket[i], &s) {
                    self.merges += 1;
                    self.heap.insert(k, bucket);
                    return;
                }
                self.merge_fail += 1;
            }
        }
        s.at_merge &= true;
        bucket.push(s);
        self.heap_n += 1;
        self.heap.insert(k, bucket);
    }
    /// Called at a potential merge point: must the state wait for others?
    fn rendezvous(&mut self, s: &mut State) -> R<()> {
        if s.merge == 0 || self.heap_n == 0 {
            return Ok(());
        }
        let k = self.key(s);
        let (min, _) = self.heap.first_key_value().unwrap();
        if k < *min {
            return Ok(());
        }
        s.at_merge = true;
        Err(Stop::Yield)
    }

    fn try_merge(&mut self, a: &mut State, b: &State) -> bool {
        if a.frames.len() != b.frames.len()
            || a.merge != b.merge
            || a.mem.heap.len() != b.mem.heap.len()
            || a.mem.stack.len() != b.mem.stack.len()
            || a.mem.live != b.mem.live
        {
            return false;
        }
        let limit = a.merge as usize;
        let mut cost = 0usize;
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if !Rc::ptr_eq(&x.f, &y.f) || x.block != y.block || x.inst != y.inst || x.stack_base != y.stack_base || x.ret != y.ret {
                return false;
            }
        }
        let mut rd: Vec<(usize, usize, T, T)> = vec![];
        let mut dead: Vec<(usize, Vec<u64>)> = vec![];
        let top = a.frames.len() - 1;
        for k in 0..=top {
            let (fa, fb) = (&a.frames[k], &b.frames[k]);
            let inst = if k == top { fa.inst } else { fa.inst + 1 };
            let live = fa.f.cfg.live(&fa.f, fa.block, inst);
            for r in 0..fa.regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 0 {
                    continue;
                }
                if k != top {
                    // the register the pending call defines is not live yet
                    let ci = &fa.f.blocks[fa.block as usize].insts[fa.inst as usize];
                    if ci.dst as usize == r {
                        continue;
                    }
                }
                match (&fa.regs[r], &fb.regs[r]) {
                    (V::C(x), V::C(y)) if x == y => {}
                    (V::S(x), V::S(y)) if x == y => {}
                    (V::U, V::U) => {}
                    (V::A(x), V::A(y)) => {
                        if Rc::ptr_eq(x, y) {
                            continue;
                        }
                        let same = x.len() == y.len()
                            && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                                (V::C(p), V::C(q)) => p == q,
                                (V::S(p), V::S(q)) => p == q,
                                (V::U, V::U) => true,
                                _ => false,
                            });
                        if !same {
                            return false;
                        }
                    }
                    (x, y) => {
                        let w = fa.f.reg_bits[r];
                        if w == 0 || w > 128 {
                            return false;
                        }
                        if let (V::C(p), V::C(q)) = (x, y) {
                            if *p >= FUNC_BASE && *q >= FUNC_BASE && w == 64 {
                                return false;
                            }
                        }
                        cost += (w as usize + 7) / 8;
                        if cost > limit {
                            return false;
                        }
                        let (x, y) = (x.clone(), y.clone());
                        let tx = self.term(&x, w);
                        let ty = self.term(&y, w);
                        rd.push((k, r, tx, ty));
                    }
                }
            }
            dead.push((k, live));
        }
        // memory
        let mut md: Vec<(Space, usize, u64, T, T)> = vec![];
        for sp in [Space::Heap, Space::Stack, Space::Global] {
            for i in a.mem.table(sp).diff(b.mem.table(sp)) {
                let (oa, ob) = (a.mem.table(sp).get(i).unwrap().clone(), b.mem.table(sp).get(i).unwrap().clone());
                if oa.alive != ob.alive || oa.size != ob.size {
                    return false;
                }
                if !oa.alive {
                    continue;
                }
                for pg in 0..oa.pages.len() {
                    match (&oa.pages[pg], &ob.pages[pg]) {
                        (None, None) => continue,
                        (Some(x), Some(y)) if Rc::ptr_eq(x, y) => continue,
                        _ => {}
                    }
                    let lo = pg * PAGE;
                    let hi = (lo + PAGE).min(oa.size as usize);
                    let mut last_word = usize::MAX;
                    for o in lo..hi {
                        let (x, y) = (oa.get(o as u64), ob.get(o as u64));
                        let same = x.1 == y.1 && (x.1 != CONC || x.0 == y.0);
                        if same {
                            continue;
                        }
                        cost += 1;
                        if cost > limit {
                            return false;
                        }
                        if o / 8 != last_word {
                            last_word = o / 8;
                            let w = (o / 8 * 8) as u64;
                            if w + 8 <= oa.size {
                                if let (Some(p), Some(q)) = (oa.read_conc(w, 8), ob.read_conc(w, 8)) {
                                    if p >= FUNC_BASE && q >= FUNC_BASE && p < 0x8000_0000_0000 && q < 0x8000_0000_0000 {
                                        return false;
                                    }
                                }
                            }
                        }
                        let tx = Mem::byte_term(&mut self.p, x);
                        let ty = Mem::byte_term(&mut self.p, y);
                        let (tx, ty) = match (tx, ty) {
                            (Some(x), Some(y)) => (x, y),
                            (Some(x), None) => (x, x),
                            (None, Some(y)) => (y, y),
                            (None, None) => continue,
                        };
                        md.push((sp, i, o as u64, tx, ty));
                    }
                }
            }
        }
        // merge
        let common = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x == y).count();
        let mut g = self.p.tru();
        for &c in &a.pc[common..] {
            g = self.p.and1(g, c);
        }
        let mut h = self.p.tru();
        for &c in &b.pc[common..] {
            h = self.p.and1(h, c);
        }
        a.pc.truncate(common);
        let either = self.p.or1(g, h);
        if self.p.as_const(either).is_none() {
            a.pc.push(either);
        }
        for (k, live) in dead {
            let regs = &mut a.frames[k].regs;
            for r in 0..regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 0 {
                    regs[r] = V::U;
                }
            }
        }
        for (k, r, x, y) in rd {
            let t = self.p.ite(g, x, y);
            a.frames[k].regs[r] = self.val(t);
        }
        for (sp, i, o, x, y) in md {
            let t = self.p.ite(g, x, y);
            let c = match self.p.as_const(t) {
                Some(v) => (v as u8, CONC),
                None => (0, t + 2),
            };
            a.mem.table_mut(sp).get_mut(i).set(o, c.0, c.1);
        }
        if !Rc::ptr_eq(&a.trace, &b.trace) {
            a.trace = Rc::new(Trace::Merge(g, a.trace.clone(), b.trace.clone()));
        }
        a.nin = a.nin.max(b.nin);
        if !Rc::ptr_eq(&a.fixed, &b.fixed) {
            let both = a.fixed.iter().filter(|(v, x)| b.fixed.get(v) == Some(x)).map(|(v, x)| (*v, *x)).collect();
            a.fixed = Rc::new(both);
        }
        a.steps = a.steps.max(b.steps);
        a.nmerged += b.nmerged + 1;
        true
    }

    // ---------- values ----------
    pub fn term(&mut self, v: &V, w: u32) -> T {
        match v {
            V::C(c) => self.p.konst(w as u8, *c as u128),
            V::S(t) => *t,
            V::U => {
                self.fresh += 1;
                let n = self.fresh;
                self.p.new_var(w as u8, format!("undef{}", n))
            }
            V::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    pub fn val(&self, t: T) -> V {
        let n = self.p.n(t);
        if n.op == Op::Const && n.w <= 64 {
            V::C(n.k as u64)
        } else {
            V::S(t)
        }
    }
    fn kval(&mut self, k: &K, t: &Ty) -> V {
        match (k, t) {
            (K::Int(v), t) => {
                if t.bits() <= 64 {
                    V::C(*v as u64)
                } else {
                    V::S(self.p.konst(t.bits() as u8, *v))
                }
            }
            (K::Undef, t) => {
                if t.is_agg() {
                    V::A(Rc::new((0..t.count()).map(|i| self.kval(&K::Undef, &t.field(i))).collect()))
                } else {
                    V::U
                }
            }
            (K::Zero, t) => {
                if t.is_agg() {
                    V::A(Rc::new((0..t.count()).map(|i| self.kval(&K::Zero, &t.field(i))).collect()))
                } else if t.bits() <= 64 {
                    V::C(0)
                } else {
                    V::S(self.p.konst(t.bits() as u8, 0))
                }
            }
            (K::Agg(v), t) => V::A(Rc::new(v.iter().enumerate().map(|(i, k)| self.kval(k, &t.field(i))).collect())),
            (K::Bytes(b), _) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        }
    }
    #[inline]
    fn opd(&mut self, s: &State, o: &Opd, t: &Ty) -> V {
        match o {
            Opd::R(r) => {
                let v = s.frames.last().unwrap().regs[*r as usize].clone();
                if let V::S(t) = v {
                    if let Some(c) = self.known(s, t) {
                        return V::C(c);
                    }
                }
                v
            }
            Opd::C(c) => V::C(*c),
            Opd::K(k) => self.kval(k, t),
        }
    }

    /// The value of a term over fixed variables only
    fn known(&mut self, s: &State, t: T) -> Option<u64> {
        if s.fixed.is_empty() || self.p.w(t) > 64 {
            return None;
        }
        let vs = self.p.varset(t);
        if vs.len() > s.fixed.len() || !vs.iter().all(|v| s.fixed.contains_key(v)) {
            return None;
        }
        let mut memo = HashMap::default();
        Some(self.p.eval(t, &|v| s.fixed[&v], &mut memo) as u64)
    }
    fn fix(&mut self, s: &mut State, var: u32, val: u128) {
        if s.fixed.get(&var) != Some(&val) {
            Rc::make_mut(&mut s.fixed).insert(var, val);
        }
    }
    /// Look for variables of `t` which now have a single value
    fn fix_vars(&mut self, s: &mut State, t: T) {
        let vs = self.p.varset(t);
        if vs.len() > 2 {
            return;
        }
        for &v in vs.iter() {
            if s.fixed.contains_key(&v) {
                continue;
            }
            let val = s.model.get(&v).copied().unwrap_or(0);
            let var = self.p.var(v);
            let w = self.p.w(var);
            let k = self.p.konst(w, val);
            let e = self.p.bin(Op::Eq, var, k);
            let ne = self.p.not(e);
            if self.sat(s, &[ne]).is_none() {
                self.fix(s, v, val);
            }
        }
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::UDiv => {
                        if y == 0 {
                            m
                        } else {
                            x / y
                        }
                    }
                    BinOp::URem => {
                        if y == 0 {
                            x
                        } else {
                            x % y
                        }
                    }
                    BinOp::SDiv => {
                        if y == 0 {
                            m
                        } else {
                            sx64(x, w).wrapping_div(sx64(y, w)) as u64
                        }
                    }
                    BinOp::SRem => {
                        if y == 0 {
                            x
                        } else {
                            sx64(x, w).wrapping_rem(sx64(y, w)) as u64
                        }
                    }
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => {
                        let k = y.min(63).min(w as u64 - 1);
                        (sx64(x, w) >> k) as u64
                    }
                    _ => unreachable!(),
                };
                return V::C(r & m);
            }
        }
        if matches!((a, b), (V::U, V::U)) {
            return V::U;
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            _ => Op::Xor,
        };
        let t = self.p.bin(o, x, y);
        self.val(t)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sxx, syy) = (sx64(x, w), sx64(y, w));
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxx > syy,
                Pred::Sge => sxx >= syy,
                Pred::Slt => sxx < syy,
                Pred::Sle => sxx <= syy,
            } as u64);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = match p {
            Pred::Eq => self.p.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.p.bin(Op::Eq, x, y);
                self.p.not(e)
            }
            Pred::Ugt => self.p.bin(Op::Ult, y, x),
            Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Ult => self.p.bin(Op::Ult, x, y),
            Pred::Ule => self.p.bin(Op::Ule, x, y),
            Pred::Sgt => self.p.bin(Op::Slt, y, x),
            Pred::Sge => self.p.bin(Op::Sle, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y),
            Pred::Sle => self.p.bin(Op::Sle, x, y),
        };
        self.val(t)
    }

    // ---------- solver ----------
    fn slice(&mut self, pc: &[T], extra: &[T]) -> Vec<T> {
        let mut vars: HashSet<u32> = HashSet::default();
        for &e in extra {
            vars.extend(self.p.varset(e).iter());
        }
        let mut out: Vec<T> = extra.to_vec();
        let mut rest: Vec<(T, Rc<Vec<u32>>)> = pc.iter().map(|&c| (c, self.p.varset(c))).collect();
        loop {
            let mut changed = false;
            let mut keep = Vec::with_capacity(rest.len());
            for (c, vs) in rest {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter());
                    out.push(c);
                    changed = true;
                } else {
                    keep.push((c, vs));
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        out
    }
    /// Is pc ∧ extra satisfiable? Returns the updated model.
    fn sat(&mut self, s: &State, extra: &[T]) -> Option<Model> {
        let q = self.slice(&s.pc, extra);
        let t0 = Instant::now();
        let answer = self.solver.check(&mut self.p, &q);
        if self.verbose && t0.elapsed().as_secs_f64() > 0.5 {
            eprintln!("{:.1} s for a query at {:?}", t0.elapsed().as_secs_f64(), self.location(s).iter().take(4).collect::<Vec<_>>());
        }
        match answer {
            Sat::Sat(vals) => {
                let mut m = (*s.model).clone();
                for (v, x) in vals {
                    m.insert(v, x);
                }
                Some(Rc::new(m))
            }
            Sat::Unsat => None,
            Sat::Unknown => {
                self.incomplete.push("solver returned unknown".into());
                None
            }
        }
    }
    fn model_eval(&mut self, s: &State, t: T) -> u128 {
        let mut memo = HashMap::default();
        let m = &s.model;
        self.p.eval(t, &|v| m.get(&v).copied().unwrap_or(0), &mut memo)
    }
    /// All feasible values of t (at most `limit`), with models. None if there are more.
    fn values(&mut self, s: &State, t: T, limit: usize) -> Option<Vec<(u128, Model)>> {
        let mut out = vec![];
        let w = self.p.w(t);
        if self.verbose {
            eprintln!("values at {:?}", self.location(s).iter().take(3).collect::<Vec<_>>());
        }
        let v0 = self.model_eval(s, t);
        out.push((v0, s.model.clone()));
        let mut extra = vec![];
        let mut last = v0;
        loop {
            let k = self.p.konst(w, last);
            let e = self.p.bin(Op::Eq, t, k);
            let ne = self.p.not(e);
            extra.push(ne);
            match self.sat(s, &extra) {
                None => return Some(out),
                Some(m) => {
                    let mut memo = HashMap::default();
                    let v = self.p.eval(t, &|x| m.get(&x).copied().unwrap_or(0), &mut memo);
                    if out.len() >= limit {
                        return None;
                    }
                    out.push((v, m));
                    last = v;
                }
            }
        }
    }
    fn assume_eq(&mut self, s: &mut State, t: T, v: u128) {
        let w = self.p.w(t);
        let k = self.p.konst(w, v);
        let e = self.p.bin(Op::Eq, t, k);
        self.add_pc(s, e);
    }
    fn add_pc(&mut self, s: &mut State, c: T) {
        if self.p.as_const(c).is_some() {
            return;
        }
        // split conjunctions for better slicing
        let n = self.p.n(c);
        if n.op == Op::And {
            self.add_pc(s, n.a);
            self.add_pc(s, n.b);
            return;
        }
        if !s.pc.contains(&c) {
            s.pc.push(c);
        }
        // equations that determine a variable
        if n.op == Op::Var {
            self.fix(s, n.k as u32, 1);
        } else if n.op == Op::Xor && self.p.as_const(n.b) == Some(1) && self.p.n(n.a).op == Op::Var {
            let v = self.p.n(n.a).k as u32;
            self.fix(s, v, 0);
        } else if n.op == Op::Eq {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                let Some(k) = self.p.as_const(y) else { continue };
                let mut x = self.p.n(x);
                if x.op == Op::ZExt {
                    x = self.p.n(x.a);
                }
                if x.op == Op::Var {
                    self.fix(s, x.k as u32, k);
                }
            }
        }
    }

    /// Make operand `o` concrete: forks the state over its feasible values when needed.
    fn conc(&mut self, s: &mut State, o: &Opd, t: &Ty) -> R<u64> {
        let v = self.opd(s, o, t);
        match v {
            V::C(c) => Ok(c),
            V::U => Ok(0),
            V::A(_) => self.unsupported(s, "aggregate operand"),
            V::S(tm) => {
                let Opd::R(r) = o else { return self.unsupported(s, "wide constant operand") };
                let Some(vals) = self.values(s, tm, 4096) else {
                    return self.give_up(s, "more than 4096 values to split on");
                };
                if vals.len() == 1 {
                    self.fix_vars(s, tm);
                    s.frames.last_mut().unwrap().regs[*r as usize] = V::C(vals[0].0 as u64);
                    return Ok(vals[0].0 as u64);
                }
                self.forks += vals.len() as u64 - 1;
                for (v, m) in vals.into_iter().rev() {
                    let mut n = s.clone();
                    n.model = m;
                    self.assume_eq(&mut n, tm, v);
                    self.fix_vars(&mut n, tm);
                    n.frames.last_mut().unwrap().regs[*r as usize] = V::C(v as u64);
                    self.schedule(n);
                }
                Err(Stop::Forked)
            }
        }
    }

    fn cur_dbg(&self, s: &State) -> u32 {
        let f = s.frames.last().unwrap();
        f.f.blocks[f.block as usize].insts.get(f.inst as usize).map(|i| i.dbg).unwrap_or(0)
    }
    fn location(&self, s: &State) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        for (k, f) in s.frames.iter().enumerate().rev() {
            let bl = &f.f.blocks[f.block as usize];
            let dbg = bl.insts.get(f.inst as usize).map(|i| i.dbg).unwrap_or(0);
            let _ = k;
            out.extend(self.m.loc(dbg));
        }
        out
    }
    fn unsupported<X>(&mut self, s: &State, what: &str) -> R<X> {
        let loc = self.location(s);
        let w = format!("unsupported: {} at {:?}", what, loc.first());
        if !self.incomplete.contains(&w) {
            self.incomplete.push(w);
        }
        Err(Stop::Kill)
    }
    fn give_up<X>(&mut self, s: &State, what: &str) -> R<X> {
        let loc = self.location(s);
        let w = format!("{} at {:?}", what, loc.iter().find(|l| l.1.contains("/repo/src")).or(loc.first()));
        if !self.incomplete.contains(&w) {
            self.incomplete.push(w);
        }
        Err(Stop::Kill)
    }
    fn violation(&mut self, s: &State, msg: String) {
        let loc = self.location(s);
        let at = loc.iter().find(|l| l.1.contains("/repo/src")).or(loc.first()).cloned();
        let key = format!("{} {:?}", msg, at);
        if !self.seen_viol.insert(key) {
            return;
        }
        let (inputs, obs) = self.concretize_trace(s);
        if self.verbose {
            eprintln!("VIOLATION {} {:?} {:?}", msg, loc, inputs);
        }
        self.violations.push(Violation { msg, loc, inputs, obs });
    }
    fn suspect(&mut self, s: &State, msg: &str) {
        if self.suspects.len() < 2 {
            let (inputs, obs) = self.concretize_trace(s);
            let loc = self.location(s);
            self.suspects.push(Violation { msg: msg.into(), loc, inputs, obs });
        }
    }
    fn fail<X>(&mut self, s: &State, msg: String) -> R<X> {
        self.violation(s, msg);
        Err(Stop::Kill)
    }

    // ---------- memory ----------
    fn read_scalar(&mut self, s: &State, sp: Space, i: usize, o: u64, bits: u32) -> V {
        let n = ((bits + 7) / 8) as usize;
        let ob = s.mem.table(sp).get(i).unwrap();
        if n <= 8 {
            if let Some(v) = ob.read_conc(o, n) {
                return V::C(v & m64(bits));
            }
        }
        let cells = ob.read_bytes(o, n as u64);
        if cells.iter().all(|c| c.1 == UNINIT) {
            return V::U;
        }
        let mut acc: Option<T> = None;
        for (k, c) in cells.into_iter().enumerate() {
            let t = match Mem::byte_term(&mut self.p, c) {
                Some(t) => t,
                None => {
                    let _ = k;
                    self.fresh += 1;
                    let n = self.fresh;
                    self.p.new_var(8, format!("uninit{}", n))
                }
            };
            acc = Some(match acc {
                None => t,
                Some(l) => self.p.concat(t, l),
            });
        }
        let mut t = acc.unwrap();
        if (bits as usize) < n * 8 {
            t = self.p.extract(t, 0, bits as u8);
        }
        self.val(t)
    }
    fn read_at(&mut self, s: &State, sp: Space, i: usize, o: u64, t: &Ty) -> V {
        if t.is_scalar() {
            return self.read_scalar(s, sp, i, o, t.bits());
        }
        let n = t.count();
        let mut v = Vec::with_capacity(n);
        for k in 0..n {
            let ft = t.field(k);
            v.push(self.read_at(s, sp, i, o + t.field_off(k), &ft));
        }
        V::A(Rc::new(v))
    }
    fn byte_cells(&mut self, v: &V, bits: u32, out: &mut Vec<(u8, u32)>) {
        let n = (bits + 7) / 8;
        match v {
            V::C(c) => {
                for k in 0..n {
                    out.push((if k < 8 { (*c >> (8 * k)) as u8 } else { 0 }, CONC));
                }
            }
            V::U => {
                for _ in 0..n {
                    out.push((0, UNINIT));
                }
            }
            V::S(t) => {
                let mut t = *t;
                if bits % 8 != 0 {
                    t = self.p.zext(t, (n * 8) as u8);
                }
                for k in 0..n {
                    let b = self.p.extract(t, (8 * k) as u8, 8);
                    out.push(match self.p.as_const(b) {
                        Some(c) => (c as u8, CONC),
                        None => (0, b + 2),
                    });
                }
            }
            V::A(_) => panic!("byte_cells of aggregate"),
        }
    }
    fn write_at(&mut self, s: &mut State, sp: Space, i: usize, o: u64, t: &Ty, v: &V) {
        if t.is_scalar() {
            let bits = t.bits();
            if let V::C(c) = v {
                if bits <= 64 {
                    s.mem.table_mut(sp).get_mut(i).write_conc(o, ((bits + 7) / 8) as usize, *c);
                    return;
                }
            }
            let mut cells = Vec::with_capacity(16);
            self.byte_cells(v, bits, &mut cells);
            s.mem.table_mut(sp).get_mut(i).write_bytes(o, &cells);
            return;
        }
        let V::A(vs) = v else { return };
        for (k, x) in vs.iter().enumerate() {
            self.write_at(s, sp, i, o + t.field_off(k), &t.field(k), x);
        }
    }

    fn load_size(t: &Ty) -> u64 {
        if t.is_scalar() {
            ((t.bits() + 7) / 8) as u64
        } else {
            t.size()
        }
    }

    /// Do all locations hold the same concrete word?
    fn same_word(&self, s: &State, at: &[(u128, Model, (Space, usize, u64))]) -> bool {
        let word = |x: &(u128, Model, (Space, usize, u64))| {
            s.mem.table(x.2 .0).get(x.2 .1).and_then(|o| o.read_conc(x.2 .2, 8))
        };
        let first = word(&at[0]);
        first.is_some() && at.iter().all(|x| word(x) == first)
    }
    /// Fork over the values of a term, which is an operand of the current instruction
    fn fork_on<X>(&mut self, s: &mut State, t: T, vals: Vec<(u128, Model)>) -> R<X> {
        if self.verbose {
            eprintln!("fork on {} values at {:?}", vals.len(), self.location(s).iter().take(3).collect::<Vec<_>>());
        }
        self.forks += vals.len() as u64 - 1;
        for (v, m) in vals.into_iter().rev() {
            let mut n = s.clone();
            n.model = m;
            self.assume_eq(&mut n, t, v);
            self.fix_vars(&mut n, t);
            for r in n.frames.last_mut().unwrap().regs.iter_mut() {
                if matches!(r, V::S(x) if *x == t) {
                    *r = V::C(v as u64);
                }
            }
            n.at_merge = false;
            self.schedule(n);
        }
        Err(Stop::Forked)
    }

    fn load(&mut self, s: &mut State, a: &V, t: &Ty) -> R<V> {
        let n = Self::load_size(t);
        match a {
            V::C(a) => match s.mem.check(*a, n, false) {
                Ok((sp, i, o)) => Ok(self.read_at(s, sp, i, o, t)),
                Err(e) => self.fail(s, format!("{} (read)", e)),
            },
            V::U => self.fail(s, "read through an uninitialised pointer".into()),
            V::A(_) => self.unsupported(s, "vector load"),
            V::S(at) => {
                let at = *at;
                let Some(vals) = self.values(s, at, 1024) else {
                    return self.give_up(s, "symbolic read with more than 1024 targets");
                };
                let mut res: Option<T> = None;
                let mut aggr = false;
                let mut ok = vec![];
                for (v, m) in &vals {
                    match s.mem.check(*v as u64, n, false) {
                        Ok(l) => ok.push((*v, m.clone(), l)),
                        Err(e) => {
                            let mut b = s.clone();
                            b.model = m.clone();
                            self.violation(&b, format!("{} (read)", e));
                        }
                    }
                    if !t.is_scalar() {
                        aggr = true;
                    }
                }
                if ok.is_empty() {
                    return Err(Stop::Kill);
                }
                let bad = ok.len() != vals.len();
                // Pointers to different objects, and tables of pointers, are told apart by forking
                let split = ok.len() > 1
                    && (ok.iter().any(|x| (x.2 .0, x.2 .1) != (ok[0].2 .0, ok[0].2 .1)) || (*t == Ty::Ptr && !self.same_word(s, &ok)));
                if split || !t.is_scalar() {
                    return self.fork_on(s, at, ok.into_iter().map(|x| (x.0, x.1)).collect());
                }
                if bad {
                    // continue on the valid targets only
                    let mut any = self.p.fls();
                    for (v, _, _) in &ok {
                        let k = self.p.konst(64, *v);
                        let e = self.p.bin(Op::Eq, at, k);
                        any = self.p.or1(any, e);
                    }
                    self.add_pc(s, any);
                    s.model = ok[0].1.clone();
                }
                if aggr {
                    if ok.len() == 1 {
                        let (sp, i, o) = ok[0].2;
                        return Ok(self.read_at(s, sp, i, o, t));
                    }
                    return self.unsupported(s, "symbolic aggregate read");
                }
                for (v, _, (sp, i, o)) in ok.iter().rev() {
                    let x = self.read_at(s, *sp, *i, *o, t);
                    let x = self.term(&x, t.bits());
                    res = Some(match res {
                        None => x,
                        Some(r) => {
                            let k = self.p.konst(64, *v);
                            let e = self.p.bin(Op::Eq, at, k);
                            self.p.ite(e, x, r)
                        }
                    });
                }
                Ok(self.val(res.unwrap()))
            }
        }
    }
    fn store(&mut self, s: &mut State, a: &V, t: &Ty, v: &V) -> R<()> {
        let n = Self::load_size(t);
        match a {
            V::C(a) => match s.mem.check(*a, n, true) {
                Ok((sp, i, o)) => {
                    self.write_at(s, sp, i, o, t, v);
                    Ok(())
                }
                Err(e) => self.fail(s, format!("{} (write)", e)),
            },
            V::U => self.fail(s, "write through an uninitialised pointer".into()),
            V::A(_) => self.unsupported(s, "vector store"),
            V::S(at) => {
                let at = *at;
                let Some(vals) = self.values(s, at, 1024) else {
                    return self.give_up(s, "symbolic write with more than 1024 targets");
                };
                let mut ok = vec![];
                for (v, m) in &vals {
                    match s.mem.check(*v as u64, n, true) {
                        Ok(l) => ok.push((*v, m.clone(), l)),
                        Err(e) => {
                            let mut b = s.clone();
                            b.model = m.clone();
                            self.violation(&b, format!("{} (write)", e));
                        }
                    }
                }
                if ok.is_empty() {
                    return Err(Stop::Kill);
                }
                if ok.len() != vals.len() {
                    let mut any = self.p.fls();
                    for (v, _, _) in &ok {
                        let k = self.p.konst(64, *v);
                        let e = self.p.bin(Op::Eq, at, k);
                        any = self.p.or1(any, e);
                    }
                    self.add_pc(s, any);
                    s.model = ok[0].1.clone();
                }
                if ok.len() == 1 {
                    let (sp, i, o) = ok[0].2;
                    self.write_at(s, sp, i, o, t, v);
                    return Ok(());
                }
                if !t.is_scalar() || ok.iter().any(|x| (x.2 .0, x.2 .1) != (ok[0].2 .0, ok[0].2 .1)) {
                    return self.fork_on(s, at, ok.into_iter().map(|x| (x.0, x.1)).collect());
                }
                let mut cells = vec![];
                self.byte_cells(v, t.bits(), &mut cells);
                for (val, _, (sp, i, o)) in &ok {
                    let k = self.p.konst(64, *val);
                    let e = self.p.bin(Op::Eq, at, k);
                    for (j, c) in cells.iter().enumerate() {
                        let old = s.mem.table(*sp).get(*i).unwrap().get(o + j as u64);
                        let nt = Mem::byte_term(&mut self.p, *c);
                        let ot = Mem::byte_term(&mut self.p, old);
                        let r = match (nt, ot) {
                            (Some(x), Some(y)) => self.p.ite(e, x, y),
                            (Some(x), None) => x,
                            (None, Some(y)) => y,
                            (None, None) => continue,
                        };
                        let cell = match self.p.as_const(r) {
                            Some(c) => (c as u8, CONC),
                            None => (0, r + 2),
                        };
                        s.mem.table_mut(*sp).get_mut(*i).set(o + j as u64, cell.0, cell.1);
                    }
                }
                Ok(())
            }
        }
    }

    // ---------- control ----------
    fn enter_block(&self, s: &State) {
        let f = s.frames.last().unwrap();
        f.f.cfg.visited[f.block as usize].set(true);
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.block;
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals: Vec<V> = Vec::with_capacity(phis.len());
            for p in phis {
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi incoming").1;
                let v = self.opd(s, o, &p.ty);
                vals.push(v);
            }
            let fr = s.frames.last_mut().unwrap();
            for (p, v) in phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        f.cfg.step(&mut fr.iters, from, to);
        fr.block = to;
        fr.inst = 0;
        f.cfg.visited[to as usize].set(true);
    }
    fn arrive(&mut self, s: &mut State) -> R<()> {
        if s.merge > 0 && self.heap_n > 0 {
            let fr = s.frames.last().unwrap();
            if fr.f.cfg.npreds[fr.block as usize] >= 2 {
                return self.rendezvous(s);
            }
        }
        Ok(())
    }

    /// Fork over (condition, successor); conditions are exclusive and exhaustive.
    fn branch(&mut self, s: &mut State, cases: Vec<(T, u32)>) -> R<()> {
        let mut feas: Vec<(T, u32, Option<Model>)> = vec![];
        let mut taken = None;
        for (k, (c, _)) in cases.iter().enumerate() {
            if taken.is_none() && self.model_eval(s, *c) == 1 {
                taken = Some(k);
            }
        }
        let Some(taken) = taken else { panic!("no branch agrees with the model") };
        for (k, (c, b)) in cases.iter().enumerate() {
            if k == taken {
                feas.push((*c, *b, None));
                continue;
            }
            if self.p.as_const(*c) == Some(0) {
                continue;
            }
            if let Some(m) = self.sat(s, &[*c]) {
                feas.push((*c, *b, Some(m)));
            }
        }
        if feas.len() == 1 {
            let b = feas[0].1;
            self.jump(s, b);
            return self.arrive(s);
        }
        self.forks += feas.len() as u64 - 1;
        if s.merge == 0 {
            // continue on the model's side, postpone the others
            let mut own = None;
            for (c, b, m) in feas.into_iter().rev() {
                match m {
                    None => own = Some((c, b)),
                    Some(m) => {
                        let mut n = s.clone();
                        n.model = m;
                        self.add_pc(&mut n, c);
                        self.jump(&mut n, b);
                        self.dfs.push(n);
                    }
                }
            }
            let (c, b) = own.unwrap();
            self.add_pc(s, c);
            self.jump(s, b);
            return Ok(());
        }
        for (c, b, m) in feas {
            let mut n = s.clone();
            if let Some(m) = m {
                n.model = m;
            }
            self.add_pc(&mut n, c);
            self.jump(&mut n, b);
            let fr = n.frames.last().unwrap();
            n.at_merge = fr.f.cfg.npreds[fr.block as usize] >= 2;
            self.schedule(n);
        }
        Err(Stop::Forked)
    }

    fn do_ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        let fr = s.frames.pop().unwrap();
        s.mem.stack.truncate(fr.stack_base);
        if s.frames.is_empty() {
            return Err(Stop::End);
        }
        let top = s.frames.last_mut().unwrap();
        if fr.ret != NONE {
            top.regs[fr.ret as usize] = v.unwrap_or(V::U);
        }
        self.after_call(s)?;
        if s.merge > 0 && self.heap_n > 0 {
            return self.rendezvous(s);
        }
        Ok(())
    }
    /// Continue after the call instruction the top frame is at.
    fn after_call(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let i = &f.blocks[fr.block as usize].insts[fr.inst as usize];
        if let I::Call { normal, .. } = &i.i {
            if *normal != NONE {
                let n = *normal;
                self.jump(s, n);
                return Ok(());
            }
        }
        fr.inst += 1;
        Ok(())
    }

    // ---------- interpreter ----------
    /// Execute until something other than straight-line progress happens.
    fn exec(&mut self, s: &mut State) -> R<()> {
        loop {
            let (f, block, inst) = {
                let fr = s.frames.last().unwrap();
                (fr.f.clone(), fr.block, fr.inst)
            };
            let insts = &f.blocks[block as usize].insts;
            let mut k = inst as usize;
            // straight-line part of the block
            loop {
                let ins = &insts[k];
                self.steps += 1;
                s.steps += 1;
                let r: V = match &ins.i {
                    I::Bin(op, t, a, b) => {
                        let (x, y) = (self.opd(s, a, t), self.opd(s, b, t));
                        match t {
                            Ty::Int(w) => self.bin(*op, *w, &x, &y),
                            Ty::Vec(..) => match self.lanes2(&x, &y, |e, p, q| e.bin_t(*op, &t.field(0), p, q)) {
                                Some(v) => v,
                                None => return self.unsupported(s, "vector operation"),
                            },
                            _ => match self.bin_t(*op, t, &x, &y) {
                                Some(v) => v,
                                None => return self.unsupported(s, "symbolic floating point"),
                            },
                        }
                    }
                    I::FNeg(t, a) => {
                        let x = self.opd(s, a, t);
                        match (t, x) {
                            (Ty::F32, V::C(c)) => V::C((-(f32::from_bits(c as u32))).to_bits() as u64),
                            (Ty::F64, V::C(c)) => V::C((-f64::from_bits(c)).to_bits()),
                            _ => return self.unsupported(s, "symbolic floating point"),
                        }
                    }
                    I::ICmp(p, t, a, b) => {
                        let (x, y) = (self.opd(s, a, t), self.opd(s, b, t));
                        match t {
                            Ty::Vec(_, et) => {
                                let w = et.bits();
                                match self.lanes2(&x, &y, |e, a, b| Some(e.icmp(*p, w, a, b))) {
                                    Some(v) => v,
                                    None => return self.unsupported(s, "vector comparison"),
                                }
                            }
                            _ => self.icmp(*p, t.bits(), &x, &y),
                        }
                    }
                    I::FCmp(c, t, a, b) => {
                        let (x, y) = (self.opd(s, a, t), self.opd(s, b, t));
                        let (V::C(x), V::C(y)) = (x, y) else {
                            return self.unsupported(s, "symbolic floating point");
                        };
                        let (x, y) = if *t == Ty::F32 {
                            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                        } else {
                            (f64::from_bits(x), f64::from_bits(y))
                        };
                        let bit = match x.partial_cmp(&y) {
                            Some(std::cmp::Ordering::Less) => 1,
                            Some(std::cmp::Ordering::Equal) => 2,
                            Some(std::cmp::Ordering::Greater) => 4,
                            None => 8,
                        };
                        V::C((*c & bit != 0) as u64)
                    }
                    I::Cast(c, t, a, t2) => {
                        let mut x = self.opd(s, a, t);
                        if matches!(c, Cast::UiToFp | Cast::SiToFp) && matches!(x, V::S(_)) {
                            // Floats are concrete: one path for each value
                            x = V::C(self.conc(s, a, t)?);
                        }
                        match self.cast(*c, t, &x, t2) {
                            Some(v) => v,
                            None => return self.unsupported(s, "cast"),
                        }
                    }
                    I::Gep(base, off, dynv) => {
                        let b = self.opd(s, base, &Ty::Ptr);
                        let mut acc = match b {
                            V::C(c) => V::C(c.wrapping_add(*off)),
                            V::U => V::U,
                            V::S(t) => {
                                let k = self.p.konst(64, *off as u128);
                                let t = self.p.bin(Op::Add, t, k);
                                self.val(t)
                            }
                            V::A(_) => return self.unsupported(s, "vector gep"),
                        };
                        for (o, bits, scale) in dynv {
                            let ix = self.opd(s, o, &Ty::Int(*bits));
                            match (&acc, &ix) {
                                (V::C(x), V::C(i)) => acc = V::C(x.wrapping_add((sx64(*i, *bits) as u64).wrapping_mul(*scale))),
                                _ => {
                                    let mut t = self.term(&ix, *bits);
                                    if *bits < 64 {
                                        t = self.p.sext(t, 64);
                                    }
                                    let sc = self.p.konst(64, *scale as u128);
                                    let t = self.p.bin(Op::Mul, t, sc);
                                    let x = self.term(&acc, 64);
                                    let t = self.p.bin(Op::Add, x, t);
                                    acc = self.val(t);
                                }
                            }
                        }
                        acc
                    }
                    I::Load(t, a) => {
                        let av = self.opd(s, a, &Ty::Ptr);
                        if !matches!(av, V::C(_)) {
                            s.frames.last_mut().unwrap().inst = k as u32;
                        }
                        match &av {
                            V::C(ad) => {
                                let n = Self::load_size(t);
                                match s.mem.check(*ad, n, false) {
                                    Ok((sp, i, o)) => self.read_at(s, sp, i, o, t),
                                    Err(e) => {
                                        s.frames.last_mut().unwrap().inst = k as u32;
                                        return self.fail(s, format!("{} (read)", e));
                                    }
                                }
                            }
                            _ => self.load(s, &av, t)?,
                        }
                    }
                    I::Store(t, v, a) => {
                        let vv = self.opd(s, v, t);
                        let av = self.opd(s, a, &Ty::Ptr);
                        s.frames.last_mut().unwrap().inst = k as u32;
                        self.store(s, &av, t, &vv)?;
                        k += 1;
                        continue;
                    }
                    I::Alloca(n) => {
                        let i = s.mem.stack.push(Obj::new((*n).max(1), 16));
                        V::C(STACK_BASE + ((i as u64) << SLOT))
                    }
                    I::Select(c, t, a, b, vc) => {
                        let cv = self.opd(s, c, &Ty::Int(1));
                        let (x, y) = (self.opd(s, a, t), self.opd(s, b, t));
                        if *vc {
                            let (V::A(cs), V::A(xs), V::A(ys)) = (&cv, &x, &y) else {
                                return self.unsupported(s, "vector select");
                            };
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                match self.select(&cs[i], &xs[i], &ys[i], &t.field(0)) {
                                    Some(v) => out.push(v),
                                    None => return self.unsupported(s, "vector select"),
                                }
                            }
                            V::A(Rc::new(out))
                        } else {
                            match self.select(&cv, &x, &y, t) {
                                Some(v) => v,
                                None => return self.unsupported(s, "select of aggregates"),
                            }
                        }
                    }
                    I::Extract(a, ix, t) => {
                        let mut v = self.opd(s, a, t);
                        for i in ix {
                            v = match v {
                                V::A(vs) => vs[*i as usize].clone(),
                                _ => V::U,
                            };
                        }
                        v
                    }
                    I::Insert(t, a, t2, b, ix) => {
                        let v = self.opd(s, a, t);
                        let x = self.opd(s, b, t2);
                        self.insert(v, t, x, ix)
                    }
                    I::ExtractElt(t, a, i) => {
                        let v = self.opd(s, a, t);
                        let iv = self.opd(s, i, &Ty::Int(64));
                        match (v, iv) {
                            (V::A(vs), V::C(i)) => vs.get(i as usize).cloned().unwrap_or(V::U),
                            (V::U, _) => V::U,
                            _ => return self.unsupported(s, "extractelement"),
                        }
                    }
                    I::InsertElt(t, a, x, i) => {
                        let v = self.opd(s, a, t);
                        let et = t.field(0);
                        let xv = self.opd(s, x, &et);
                        let iv = self.opd(s, i, &Ty::Int(64));
                        let mut vs = match v {
                            V::A(v) => (*v).clone(),
                            _ => vec![V::U; t.count()],
                        };
                        match iv {
                            V::C(i) if (i as usize) < vs.len() => vs[i as usize] = xv,
                            _ => return self.unsupported(s, "insertelement"),
                        }
                        V::A(Rc::new(vs))
                    }
                    I::Shuffle(t, a, b, mask) => {
                        let (x, y) = (self.opd(s, a, t), self.opd(s, b, t));
                        let n = t.count() as i32;
                        let get = |v: &V, i: i32| match v {
                            V::A(vs) => vs[i as usize].clone(),
                            _ => V::U,
                        };
                        V::A(Rc::new(
                            mask.iter()
                                .map(|&i| if i < 0 { V::U } else if i < n { get(&x, i) } else { get(&y, i - n) })
                                .collect(),
                        ))
                    }
                    I::Freeze(t, a) => {
                        let v = self.opd(s, a, t);
                        match v {
                            V::U if t.is_scalar() => {
                                let x = self.term(&V::U, t.bits());
                                V::S(x)
                            }
                            v => v,
                        }
                    }
                    I::Rmw(op, t, a, v) => {
                        let av = self.opd(s, a, &Ty::Ptr);
                        let x = self.opd(s, v, t);
                        s.frames.last_mut().unwrap().inst = k as u32;
                        let old = self.load(s, &av, t)?;
                        let w = t.bits();
                        let new = match op {
                            0 => x,
                            1 => self.bin(BinOp::Add, w, &old, &x),
                            2 => self.bin(BinOp::Sub, w, &old, &x),
                            3 => self.bin(BinOp::And, w, &old, &x),
                            4 => self.bin(BinOp::Or, w, &old, &x),
                            5 => self.bin(BinOp::Xor, w, &old, &x),
                            _ => {
                                let c = self.icmp(if *op == 6 { Pred::Ugt } else { Pred::Ult }, w, &old, &x);
                                self.select(&c, &old, &x, t).unwrap()
                            }
                        };
                        self.store(s, &av, t, &new)?;
                        old
                    }
                    I::CmpXchg(t, a, c, n) => {
                        let av = self.opd(s, a, &Ty::Ptr);
                        let cv = self.opd(s, c, t);
                        let nv = self.opd(s, n, t);
                        s.frames.last_mut().unwrap().inst = k as u32;
                        let old = self.load(s, &av, t)?;
                        let eq = self.icmp(Pred::Eq, t.bits(), &old, &cv);
                        let new = self.select(&eq, &nv, &old, t).unwrap();
                        self.store(s, &av, t, &new)?;
                        V::A(Rc::new(vec![old, eq]))
                    }
                    I::Fence => {
                        k += 1;
                        continue;
                    }
                    I::Br(b) => {
                        let b = *b;
                        self.jump(s, b);
                        self.limits(s)?;
                        self.arrive(s)?;
                        break;
                    }
                    I::CondBr(c, x, y) => {
                        let v = self.opd(s, c, &Ty::Int(1));
                        match v {
                            V::C(c) => {
                                let b = if c & 1 == 1 { *x } else { *y };
                                self.jump(s, b);
                                self.limits(s)?;
                                self.arrive(s)?;
                                break;
                            }
                            v => {
                                s.frames.last_mut().unwrap().inst = k as u32;
                                self.limits(s)?;
                                let t = self.term(&v, 1);
                                let n = self.p.not(t);
                                if *x == *y {
                                    let b = *x;
                                    self.jump(s, b);
                                    self.arrive(s)?;
                                    break;
                                }
                                self.branch(s, vec![(t, *x), (n, *y)])?;
                                break;
                            }
                        }
                    }
                    I::Switch(t, a, d, cs) => {
                        let v = self.opd(s, a, t);
                        match v {
                            V::C(c) => {
                                let b = cs.iter().find(|x| x.0 == c as u128).map(|x| x.1).unwrap_or(*d);
                                self.jump(s, b);
                                self.limits(s)?;
                                self.arrive(s)?;
                                break;
                            }
                            v => {
                                s.frames.last_mut().unwrap().inst = k as u32;
                                self.limits(s)?;
                                let tm = self.term(&v, t.bits());
                                let mut by: Vec<(T, u32)> = vec![];
                                let mut none = self.p.tru();
                                for (val, b) in cs {
                                    let kk = self.p.konst(t.bits() as u8, *val);
                                    let e = self.p.bin(Op::Eq, tm, kk);
                                    let ne = self.p.not(e);
                                    none = self.p.and1(none, ne);
                                    match by.iter_mut().find(|x| x.1 == *b) {
                                        Some(x) => x.0 = self.p.or1(x.0, e),
                                        None => by.push((e, *b)),
                                    }
                                }
                                match by.iter_mut().find(|x| x.1 == *d) {
                                    Some(x) => x.0 = self.p.or1(x.0, none),
                                    None => by.push((none, *d)),
                                }
                                self.branch(s, by)?;
                                break;
                            }
                        }
                    }
                    I::Ret(t, a) => {
                        let v = self.opd(s, a, t);
                        self.do_ret(s, Some(v))?;
                        break;
                    }
                    I::RetVoid => {
                        self.do_ret(s, None)?;
                        break;
                    }
                    I::Unreachable => {
                        s.frames.last_mut().unwrap().inst = k as u32;
                        return self.fail(s, "unreachable code reached".into());
                    }
                    I::Call { .. } => {
                        s.frames.last_mut().unwrap().inst = k as u32;
                        let depth = s.frames.len();
                        match self.call(s, ins)? {
                            Some(v) => {
                                if let I::Call { normal, .. } = &ins.i {
                                    if *normal != NONE {
                                        if ins.dst != NONE {
                                            s.frames.last_mut().unwrap().regs[ins.dst as usize] = v;
                                        }
                                        let n = *normal;
                                        self.jump(s, n);
                                        self.arrive(s)?;
                                        break;
                                    }
                                }
                                v
                            }
                            None => {
                                debug_assert!(s.frames.len() == depth + 1);
                                break;
                            }
                        }
                    }
                    I::LandingPad => return self.unsupported(s, "landing pad"),
                    I::Unsupported(l) => {
                        s.frames.last_mut().unwrap().inst = k as u32;
                        let l = l.clone();
                        return self.unsupported(s, &l);
                    }
                };
                if ins.dst != NONE {
                    s.frames.last_mut().unwrap().regs[ins.dst as usize] = r;
                }
                k += 1;
            }
        }
    }
    #[inline]
    fn limits(&mut self, s: &State) -> R<()> {
        if s.steps > self.lim.max_steps {
            self.suspect(s, "does not end within the limit of steps");
            return self.give_up(s, "step limit of a path");
        }
        if self.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.max_secs + 5.0 {
            self.suspect(s, "does not end within the time limit");
            return self.give_up(s, "time limit inside a path");
        }
        Ok(())
    }

    fn lanes2(&mut self, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> Option<V>) -> Option<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    out.push(f(self, p, q)?);
                }
                Some(V::A(Rc::new(out)))
            }
            (V::U, _) | (_, V::U) => Some(V::U),
            _ => None,
        }
    }
    fn bin_t(&mut self, op: BinOp, t: &Ty, a: &V, b: &V) -> Option<V> {
        match t {
            Ty::Int(w) => Some(self.bin(op, *w, a, b)),
            Ty::F32 | Ty::F64 => {
                let (V::C(x), V::C(y)) = (a, b) else { return None };
                if *t == Ty::F32 {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    Some(V::C(r.to_bits() as u64))
                } else {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    Some(V::C(r.to_bits()))
                }
            }
            _ => None,
        }
    }
    fn select(&mut self, c: &V, x: &V, y: &V, t: &Ty) -> Option<V> {
        match c {
            V::C(c) => Some(if c & 1 == 1 { x.clone() } else { y.clone() }),
            V::A(_) => None,
            c => {
                if let (V::A(xs), V::A(ys)) = (x, y) {
                    let mut out = vec![];
                    for i in 0..xs.len() {
                        out.push(self.select(c, &xs[i], &ys[i], &t.field(i))?);
                    }
                    return Some(V::A(Rc::new(out)));
                }
                if let V::U = x {
                    return Some(y.clone());
                }
                if let V::U = y {
                    return Some(x.clone());
                }
                let w = t.bits();
                if w == 0 {
                    return None;
                }
                let c = self.term(c, 1);
                let (x, y) = (self.term(x, w), self.term(y, w));
                let r = self.p.ite(c, x, y);
                Some(self.val(r))
            }
        }
    }
    fn insert(&mut self, v: V, t: &Ty, x: V, ix: &[u32]) -> V {
        let mut vs = match v {
            V::A(v) => (*v).clone(),
            _ => vec![V::U; t.count()],
        };
        let i = ix[0] as usize;
        if ix.len() == 1 {
            vs[i] = x;
        } else {
            let inner = vs[i].clone();
            vs[i] = self.insert(inner, &t.field(i), x, &ix[1..]);
        }
        V::A(Rc::new(vs))
    }
    fn cast(&mut self, c: Cast, t: &Ty, x: &V, t2: &Ty) -> Option<V> {
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (t, t2) {
            if c != Cast::Bit || (t.count() == t2.count()) {
                if let V::A(vs) = x {
                    let mut out = vec![];
                    for v in vs.iter() {
                        out.push(self.cast(c, e1, v, e2)?);
                    }
                    return Some(V::A(Rc::new(out)));
                }
            }
        }
        match c {
            Cast::Bit => {
                if t.is_scalar() && t2.is_scalar() {
                    return Some(x.clone());
                }
                // through a flat bit-vector
                let flat: T = match (t, x) {
                    (Ty::Vec(_, e), V::A(vs)) => {
                        let mut acc: Option<T> = None;
                        for v in vs.iter() {
                            let v = self.term(v, e.bits());
                            acc = Some(match acc {
                                None => v,
                                Some(a) => self.p.concat(v, a),
                            });
                        }
                        acc?
                    }
                    (_, V::A(_)) => return None,
                    (t, x) => self.term(x, t.bits()),
                };
                match t2 {
                    Ty::Vec(n, e) => {
                        let w = e.bits();
                        let mut out = vec![];
                        for i in 0..*n {
                            let t = self.p.extract(flat, (i as u32 * w) as u8, w as u8);
                            out.push(self.val(t));
                        }
                        Some(V::A(Rc::new(out)))
                    }
                    _ => Some(self.val(flat)),
                }
            }
            Cast::Trunc => match x {
                V::C(v) => Some(V::C(v & m64(t2.bits()))),
                V::S(t) => {
                    let r = self.p.extract(*t, 0, t2.bits() as u8);
                    Some(self.val(r))
                }
                V::U => Some(V::U),
                _ => None,
            },
            Cast::ZExt | Cast::SExt => match x {
                V::C(v) if t2.bits() <= 64 => Some(V::C(if c == Cast::ZExt {
                    *v
                } else {
                    sx64(*v, t.bits()) as u64 & m64(t2.bits())
                })),
                V::A(_) => None,
                x => {
                    let a = self.term(x, t.bits());
                    let r = if c == Cast::ZExt {
                        self.p.zext(a, t2.bits() as u8)
                    } else {
                        self.p.sext(a, t2.bits() as u8)
                    };
                    Some(self.val(r))
                }
            },
            _ => {
                let V::C(v) = x else { return None };
                let v = *v;
                let as_f = |t: &Ty, v: u64| if *t == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let from_f = |t: &Ty, d: f64| if *t == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                Some(V::C(match c {
                    Cast::FpTrunc | Cast::FpExt => from_f(t2, as_f(t, v)),
                    Cast::FpToUi => (as_f(t, v) as u64) & m64(t2.bits()),
                    Cast::FpToSi => (as_f(t, v) as i64 as u64) & m64(t2.bits()),
                    Cast::UiToFp => {
                        if *t2 == Ty::F32 {
                            (v as f32).to_bits() as u64
                        } else {
                            (v as f64).to_bits()
                        }
                    }
                    _ => {
                        let i = sx64(v, t.bits());
                        if *t2 == Ty::F32 {
                            (i as f32).to_bits() as u64
                        } else {
                            (i as f64).to_bits()
                        }
                    }
                }))
            }
        }
    }

    // ---------- calls ----------
    fn resolve(&mut self, name: &str) -> Target {
        let b = |b| Target::B(b);
        match name {
            "__sym_alloc" => b(B::SymAlloc),
            "__sym_dealloc" => b(B::SymDealloc),
            "__sym_int" => b(B::SymInt),
            "__sym_assume" => b(B::SymAssume),
            "__sym_assert" => b(B::SymAssert),
            "__sym_cover" => b(B::SymCover),
            "__sym_observe" => b(B::SymObserve),
            "__sym_live_heap" => b(B::SymLive),
            "__sym_param" => b(B::SymParam),
            "__sym_split" => b(B::SymSplit),
            "__sym_merge" => b(B::SymMerge),
            "__sym_wants" => b(B::SymWants),
            "memcpy" => b(B::Memcpy),
            "memmove" => b(B::Memmove),
            "memset" => b(B::Memset),
            "bcmp" => b(B::Bcmp),
            "memcmp" => b(B::Memcmp),
            "strlen" => b(B::Strlen),
            "getrandom" => b(B::Getrandom),
            // The thread does not end within a harness
            "__cxa_thread_atexit_impl" => b(B::Zero),
            "abort" => Target::Panic,
            _ => {
                if let Some(r) = name.strip_prefix("llvm.") {
                    let st = |p: &str| r.starts_with(p);
                    return b(if st("memcpy") {
                        B::Memcpy
                    } else if st("memmove") {
                        B::Memmove
                    } else if st("memset") {
                        B::Memset
                    } else if st("lifetime")
                        || st("experimental.noalias")
                        || st("assume")
                        || st("dbg")
                        || st("invariant")
                        || st("prefetch")
                        || st("x86.sse2.pause")
                        || st("donothing")
                    {
                        B::Nop
                    } else if st("trap") || st("ubsantrap") {
                        B::Trap
                    } else if st("umax") {
                        B::UMax
                    } else if st("umin") {
                        B::UMin
                    } else if st("smax") {
                        B::SMax
                    } else if st("smin") {
                        B::SMin
                    } else if st("fshl") {
                        B::Fshl
                    } else if st("fshr") {
                        B::Fshr
                    } else if st("uadd.with") {
                        B::AddO
                    } else if st("sadd.with") {
                        B::SAddO
                    } else if st("usub.with") {
                        B::SubO
                    } else if st("ssub.with") {
                        B::SSubO
                    } else if st("umul.with") {
                        B::MulO
                    } else if st("smul.with") {
                        B::SMulO
                    } else if st("usub.sat") {
                        B::USubSat
                    } else if st("uadd.sat") {
                        B::UAddSat
                    } else if st("sadd.sat") {
                        B::SAddSat
                    } else if st("ssub.sat") {
                        B::SSubSat
                    } else if st("ctpop") {
                        B::Ctpop
                    } else if st("cttz") {
                        B::Cttz
                    } else if st("ctlz") {
                        B::Ctlz
                    } else if st("bswap") {
                        B::Bswap
                    } else if st("bitreverse") {
                        B::Bitrev
                    } else if st("ucmp") {
                        B::Ucmp
                    } else if st("scmp") {
                        B::Scmp
                    } else if st("abs.") {
                        B::Abs
                    } else if st("is.constant") {
                        B::IsConst
                    } else if st("expect") {
                        B::Expect
                    } else if st("load.relative") {
                        B::LoadRel
                    } else if st("threadlocal.address") {
                        B::ThreadAddr
                    } else if st("fabs") {
                        B::Float(0)
                    } else if st("floor") {
                        B::Float(1)
                    } else if st("ceil") {
                        B::Float(2)
                    } else if st("round.") {
                        B::Float(3)
                    } else if st("trunc") {
                        B::Float(4)
                    } else if st("sqrt") {
                        B::Float(5)
                    } else if st("fptoui.sat") {
                        B::FptouiSat
                    } else if st("fptosi.sat") {
                        B::FptosiSat
                    } else {
                        B::Unknown
                    });
                }
                if let Some(&i) = self.m.fidx.get(name) {
                    if self.m.is_noreturn(i) {
                        return Target::Panic;
                    }
                    if self.m.funcs[i].lines != (0, 0) {
                        return Target::F(i);
                    }
                }
                b(B::Unknown)
            }
        }
    }

    /// Some(v): the call completed with value v. None: a frame was pushed.
    fn call(&mut self, s: &mut State, ins: &Inst) -> R<Option<V>> {
        let I::Call { ret, callee, args, noreturn, .. } = &ins.i else { unreachable!() };
        let (target, name): (Target, Rc<str>) = match callee {
            Callee::Direct(n) => {
                let key = n.as_ptr();
                let t = match self.targets.get(&key) {
                    Some(t) => *t,
                    None => {
                        let mut t = self.resolve(n);
                        if *noreturn && !matches!(t, Target::B(B::SymAssume | B::SymAssert | B::SymInt)) {
                            t = Target::Panic;
                        }
                        self.targets.insert(key, t);
                        t
                    }
                };
                (t, n.clone())
            }
            Callee::Indirect(o) => {
                let a = self.conc(s, o, &Ty::Ptr)?;
                if a < FUNC_BASE || a >= GLOBAL_BASE || a % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return self.fail(s, "call through an invalid pointer".into());
                }
                let n = self.m.funcs[((a - FUNC_BASE) / 16) as usize].name.clone();
                let mut t = self.resolve(&n);
                if *noreturn {
                    t = Target::Panic;
                }
                (t, n)
            }
        };
        match target {
            Target::Panic => {
                let n = short_name(&name);
                self.fail(s, format!("panic: {}", n))
            }
            Target::F(id) => {
                if s.frames.len() > 3000 {
                    return self.fail(s, "recursion over 3000 calls".into());
                }
                let f = self.m.func(id).unwrap();
                self.called.insert(id);
                let mut regs = vec![V::U; f.nregs];
                for (k, (t, o)) in args.iter().enumerate() {
                    if k < f.params.len() {
                        regs[f.params[k] as usize] = self.opd(s, o, t);
                    }
                }
                let stack_base = s.mem.stack.len();
                f.cfg.visited[0].set(true);
                let depth0 = f.cfg.depth[0] as usize;
                s.frames.push(Frame { regs, f, block: 0, inst: 0, iters: vec![0; depth0], ret: ins.dst, stack_base });
                Ok(None)
            }
            Target::B(b) => {
                let v = self.builtin(s, b, ret, args, &name)?;
                Ok(Some(v))
            }
        }
    }

    fn bytes_at(&mut self, s: &State, a: u64, n: u64) -> Option<Vec<u8>> {
        let (sp, i, o) = s.mem.check(a, n, false).ok()?;
        Some(s.mem.table(sp).get(i)?.read_bytes(o, n).into_iter().map(|x| x.0).collect())
    }

    fn builtin(&mut self, s: &mut State, b: B, ret: &Ty, args: &[(Ty, Opd)], name: &str) -> R<V> {
        macro_rules! arg {
            ($i:expr) => {
                self.opd(s, &args[$i].1, &args[$i].0)
            };
        }
        macro_rules! conc {
            ($i:expr) => {
                self.conc(s, &args[$i].1, &args[$i].0)?
            };
        }
        let w = if args.is_empty() { 0 } else { args[0].0.bits() };
        Ok(match b {
            B::Nop => V::U,
            B::Zero => V::C(0),
            B::SymAlloc => {
                let size = conc!(0);
                let align = conc!(1);
                if size >= (1 << SLOT) - 64 {
                    self.suspect(s, "allocates 32 MiB or more at once");
                    return self.give_up(s, "allocation of 32 MiB or more");
                }
                let i = s.mem.heap.push(Obj::new(size, align));
                if i >= 1 << 20 {
                    self.suspect(s, "allocates again and again");
                    return self.give_up(s, "more than 2^20 allocations");
                }
                s.mem.live += 1;
                V::C(HEAP_BASE + ((i as u64) << SLOT))
            }
            B::SymDealloc => {
                let a = conc!(0);
                let size = conc!(1);
                match Mem::locate(a) {
                    Some((Space::Heap, i, 0)) if s.mem.heap.get(i).is_some() => {
                        let o = s.mem.heap.get(i).unwrap();
                        if !o.alive {
                            return self.fail(s, "double free".into());
                        }
                        if o.size != size {
                            return self.fail(s, "free with a wrong layout".into());
                        }
                        let mut dead = Obj::new(0, 1);
                        dead.alive = false;
                        dead.size = size;
                        dead.pages = vec![];
                        s.mem.heap.set(i, Rc::new(dead));
                        s.mem.live -= 1;
                    }
                    _ => return self.fail(s, "free of a pointer that was not allocated".into()),
                }
                V::U
            }
            B::SymInt => {
                let bits = conc!(0) as u32;
                let tag = conc!(1) as u32;
                // The n-th input of a path is the same variable on all paths, which makes queries alike
                let id = (s.nin, bits);
                s.nin += 1;
                let t = match self.inputs.get(&id) {
                    Some(&t) => t,
                    None => {
                        let t = self.p.new_var(bits as u8, format!("in{}_{}", id.0, bits));
                        self.inputs.insert(id, t);
                        t
                    }
                };
                s.trace = Rc::new(Trace::Input(t, bits, tag, s.trace.clone()));
                let z = self.p.zext(t, 64);
                self.val(z)
            }
            B::SymAssume => {
                let v = arg!(0);
                match v {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Kill);
                        }
                    }
                    v => {
                        let t = self.term(&v, 1);
                        if self.model_eval(s, t) == 1 {
                            self.add_pc(s, t);
                        } else {
                            match self.sat(s, &[t]) {
                                Some(m) => {
                                    s.model = m;
                                    self.add_pc(s, t);
                                }
                                None => return Err(Stop::Kill),
                            }
                        }
                    }
                }
                V::U
            }
            B::SymAssert => {
                let v = arg!(0);
                let (pm, pl) = (conc!(1), conc!(2));
                if let Some(want) = self.property {
                    // Checks of other properties are none of ours
                    let b = self.bytes_at(s, pm, pl).unwrap_or_default();
                    if b.len() > 3 && b[3] == b' ' && b[..3] != want {
                        return Ok(V::U);
                    }
                }
                self.asserts += 1;
                let msg = |e: &mut Self, s: &State| {
                    let b = e.bytes_at(s, pm, pl).unwrap_or_default();
                    format!("assert: {}", String::from_utf8_lossy(&b))
                };
                match v {
                    V::C(c) => {
                        if c & 1 == 0 {
                            let m = msg(self, s);
                            return self.fail(s, m);
                        }
                    }
                    v => {
                        let t = self.term(&v, 1);
                        let n = self.p.not(t);
                        self.assert_queries += 1;
                        if let Some(m) = self.sat(s, &[n]) {
                            let mut bad = s.clone();
                            bad.model = m;
                            let text = msg(self, s);
                            self.violation(&bad, text);
                            // carry on where it holds
                            if self.model_eval(s, t) != 1 {
                                match self.sat(s, &[t]) {
                                    Some(m) => s.model = m,
                                    None => return Err(Stop::Kill),
                                }
                            }
                            self.add_pc(s, t);
                        }
                    }
                }
                V::U
            }
            B::SymCover => {
                let (pm, pl) = (conc!(0), conc!(1));
                let b = self.bytes_at(s, pm, pl).unwrap_or_default();
                *self.covers.entry(String::from_utf8_lossy(&b).into_owned()).or_insert(0) += 1;
                V::U
            }
            B::SymObserve => {
                let v = arg!(0);
                s.trace = Rc::new(Trace::Obs(v, s.trace.clone()));
                V::U
            }
            B::SymLive => V::C(s.mem.live),
            B::SymParam => {
                let i = conc!(0) as usize;
                V::C(self.params.get(i).copied().unwrap_or(0))
            }
            B::SymSplit => V::C(conc!(0)),
            B::SymWants => {
                let id = (conc!(0) as u32).to_be_bytes();
                V::C(self.property.map_or(true, |p| p[..] == id[1..]) as u64)
            }
            B::SymMerge => {
                let l = conc!(0) as u32;
                let old = s.merge;
                s.merge = l;
                if (old == 0) != (l == 0) {
                    // move between the depth-first and the merging scheduler
                    s.frames.last_mut().unwrap().inst += 1;
                    return Err(Stop::Yield);
                }
                V::U
            }
            B::Memcpy | B::Memmove => {
                let n = conc!(2);
                if n > 0 {
                    let d = conc!(0);
                    let a = conc!(1);
                    let cells = match s.mem.check(a, n, false) {
                        Ok((sp, i, o)) => s.mem.table(sp).get(i).unwrap().read_bytes(o, n),
                        Err(e) => return self.fail(s, format!("{} (copy source)", e)),
                    };
                    match s.mem.check(d, n, true) {
                        Ok((sp, i, o)) => s.mem.table_mut(sp).get_mut(i).write_bytes(o, &cells),
                        Err(e) => return self.fail(s, format!("{} (copy destination)", e)),
                    }
                }
                arg!(0)
            }
            B::Memset => {
                let n = conc!(2);
                if n > 0 {
                    let d = conc!(0);
                    let v = arg!(1);
                    match s.mem.check(d, n, true) {
                        Ok((sp, i, o)) => match v {
                            V::C(c) => s.mem.table_mut(sp).get_mut(i).fill(o, n, c as u8),
                            v => {
                                let mut cell = vec![];
                                self.byte_cells(&v, 8, &mut cell);
                                let cells = vec![cell[0]; n as usize];
                                s.mem.table_mut(sp).get_mut(i).write_bytes(o, &cells);
                            }
                        },
                        Err(e) => return self.fail(s, format!("{} (fill)", e)),
                    }
                }
                arg!(0)
            }
            B::Bcmp | B::Memcmp => {
                let n = conc!(2);
                if n == 0 {
                    return Ok(V::C(0));
                }
                let (pa, pb) = (conc!(0), conc!(1));
                let mut side = vec![];
                for a in [pa, pb] {
                    match s.mem.check(a, n, false) {
                        Ok((sp, i, o)) => side.push(s.mem.table(sp).get(i).unwrap().read_bytes(o, n)),
                        Err(e) => return self.fail(s, format!("{} (compare)", e)),
                    }
                }
                if side[0].iter().chain(side[1].iter()).all(|c| c.1 == CONC) {
                    let x: Vec<u8> = side[0].iter().map(|c| c.0).collect();
                    let y: Vec<u8> = side[1].iter().map(|c| c.0).collect();
                    return Ok(V::C(match x.cmp(&y) {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    }));
                }
                // lexicographic result, last byte first
                let mut acc = self.p.konst(32, 0);
                for k in (0..n as usize).rev() {
                    let x = self.cell_term(side[0][k]);
                    let y = self.cell_term(side[1][k]);
                    let e = self.p.bin(Op::Eq, x, y);
                    let l = self.p.bin(Op::Ult, x, y);
                    let m1 = self.p.konst(32, 0xffff_ffff);
                    let p1 = self.p.konst(32, 1);
                    let ne = if matches!(b, B::Bcmp) { p1 } else { self.p.ite(l, m1, p1) };
                    acc = self.p.ite(e, acc, ne);
                }
                self.val(acc)
            }
            B::Strlen => {
                let a = conc!(0);
                let mut n = 0;
                loop {
                    match s.mem.check(a + n, 1, false) {
                        Ok((sp, i, o)) => {
                            let c = s.mem.table(sp).get(i).unwrap().get(o);
                            if c.1 != CONC {
                                return self.unsupported(s, "strlen of symbolic bytes");
                            }
                            if c.0 == 0 {
                                break;
                            }
                        }
                        Err(e) => return self.fail(s, format!("{} (strlen)", e)),
                    }
                    n += 1;
                }
                V::C(n)
            }
            B::Getrandom => {
                let a = conc!(0);
                let n = conc!(1);
                match s.mem.check(a, n, true) {
                    Ok((sp, i, o)) => s.mem.table_mut(sp).get_mut(i).fill(o, n, 0x5a),
                    Err(e) => return self.fail(s, format!("{} (getrandom)", e)),
                }
                V::C(n)
            }
            B::Trap => return self.fail(s, "trap".into()),
            B::UMax | B::UMin | B::SMax | B::SMin => {
                if let Ty::Vec(_, e) = &args[0].0 {
                    let (x, y) = (arg!(0), arg!(1));
                    let e = (**e).clone();
                    let r = self.lanes2(&x, &y, |me, p, q| Some(me.minmax(b, e.bits(), p, q)));
                    match r {
                        Some(v) => v,
                        None => return self.unsupported(s, name),
                    }
                } else {
                    let (x, y) = (arg!(0), arg!(1));
                    self.minmax(b, w, &x, &y)
                }
            }
            B::Fshl | B::Fshr => {
                let (x, y, z) = (arg!(0), arg!(1), arg!(2));
                if let (V::C(x), V::C(y), V::C(z)) = (&x, &y, &z) {
                    if w <= 64 {
                        let k = (*z % w as u64) as u32;
                        let cat = ((*x as u128) << w) | *y as u128;
                        let r = if matches!(b, B::Fshl) { (cat << k) >> w } else { cat >> k };
                        return Ok(V::C(r as u64 & m64(w)));
                    }
                }
                let V::C(z) = z else { return self.unsupported(s, "funnel shift by a symbolic amount") };
                if w > 64 {
                    return self.unsupported(s, "wide funnel shift");
                }
                let k = (z % w as u64) as u32;
                let (x, y) = (self.term(&x, w), self.term(&y, w));
                let cat = self.p.concat(x, y);
                let lo = if matches!(b, B::Fshl) { w - k } else { k };
                let r = self.p.extract(cat, lo as u8, w as u8);
                self.val(r)
            }
            B::AddO | B::SubO | B::MulO | B::SAddO | B::SSubO | B::SMulO => {
                let (x, y) = (arg!(0), arg!(1));
                self.overflow(s, b, w, &x, &y)?
            }
            B::USubSat | B::UAddSat | B::SAddSat | B::SSubSat => {
                let (x, y) = (arg!(0), arg!(1));
                let t = args[0].0.clone();
                if !t.is_scalar() {
                    return self.unsupported(s, name);
                }
                match b {
                    B::USubSat => {
                        let c = self.icmp(Pred::Ult, w, &x, &y);
                        let d = self.bin(BinOp::Sub, w, &x, &y);
                        self.select(&c, &V::C(0), &d, &t).unwrap()
                    }
                    B::UAddSat => {
                        let d = self.bin(BinOp::Add, w, &x, &y);
                        let c = self.icmp(Pred::Ult, w, &d, &x);
                        let m = V::C(m64(w));
                        self.select(&c, &m, &d, &t).unwrap()
                    }
                    _ => return self.unsupported(s, name),
                }
            }
            B::Ctpop | B::Cttz | B::Ctlz | B::Bswap | B::Bitrev => {
                let x = arg!(0);
                if !args[0].0.is_scalar() {
                    return self.unsupported(s, name);
                }
                match x {
                    V::C(c) if w <= 64 => V::C(match b {
                        B::Ctpop => c.count_ones() as u64,
                        B::Cttz => {
                            if c == 0 {
                                w as u64
                            } else {
                                c.trailing_zeros() as u64
                            }
                        }
                        B::Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                        B::Bswap => c.swap_bytes() >> (64 - w),
                        _ => c.reverse_bits() >> (64 - w),
                    }),
                    x => {
                        let t = self.term(&x, w);
                        let w8 = w as u8;
                        let r = match b {
                            B::Ctpop => {
                                let mut acc = self.p.konst(w8, 0);
                                for i in 0..w8 {
                                    let b = self.p.extract(t, i, 1);
                                    let z = self.p.zext(b, w8);
                                    acc = self.p.bin(Op::Add, acc, z);
                                }
                                acc
                            }
                            B::Cttz | B::Ctlz => {
                                let mut acc = self.p.konst(w8, w as u128);
                                for i in 0..w8 {
                                    let bit = if matches!(b, B::Cttz) { w8 - 1 - i } else { i };
                                    let res = if matches!(b, B::Cttz) { bit } else { w8 - 1 - bit };
                                    let e = self.p.extract(t, bit, 1);
                                    let k = self.p.konst(w8, res as u128);
                                    acc = self.p.ite(e, k, acc);
                                }
                                acc
                            }
                            B::Bswap => {
                                let mut acc: Option<T> = None;
                                for i in 0..w8 / 8 {
                                    let e = self.p.extract(t, i * 8, 8);
                                    acc = Some(match acc {
                                        None => e,
                                        Some(a) => self.p.concat(a, e),
                                    });
                                }
                                acc.unwrap()
                            }
                            _ => return self.unsupported(s, name),
                        };
                        self.val(r)
                    }
                }
            }
            B::Ucmp | B::Scmp => {
                let (x, y) = (arg!(0), arg!(1));
                let (lt, gt) = if matches!(b, B::Ucmp) { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &x, &y);
                let g = self.icmp(gt, w, &x, &y);
                let m1 = V::C(m64(ret.bits()));
                let r = self.select(&g, &V::C(1), &V::C(0), ret).unwrap();
                self.select(&l, &m1, &r, ret).unwrap()
            }
            B::Abs => {
                let x = arg!(0);
                let n = self.bin(BinOp::Sub, w, &V::C(0), &x);
                let c = self.icmp(Pred::Slt, w, &x, &V::C(0));
                let t = args[0].0.clone();
                self.select(&c, &n, &x, &t).unwrap()
            }
            B::IsConst => V::C(0),
            B::Expect | B::ThreadAddr => arg!(0),
            B::LoadRel => {
                let a = conc!(0);
                let o = conc!(1);
                let v = self.load(s, &V::C(a.wrapping_add(o)), &Ty::Int(32))?;
                match v {
                    V::C(v) => V::C(a.wrapping_add(sx64(v, 32) as u64)),
                    _ => return self.unsupported(s, name),
                }
            }
            B::Float(k) => {
                let V::C(x) = arg!(0) else { return self.unsupported(s, "symbolic floating point") };
                let f32_ = args[0].0 == Ty::F32;
                let d = if f32_ { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match k {
                    0 => d.abs(),
                    1 => d.floor(),
                    2 => d.ceil(),
                    3 => d.round(),
                    4 => d.trunc(),
                    _ => d.sqrt(),
                };
                V::C(if f32_ { (r as f32).to_bits() as u64 } else { r.to_bits() })
            }
            B::FptouiSat | B::FptosiSat => {
                let V::C(x) = arg!(0) else { return self.unsupported(s, "symbolic floating point") };
                let d = if args[0].0 == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let rb = ret.bits();
                V::C(if matches!(b, B::FptouiSat) {
                    let m = m64(rb);
                    if d.is_nan() || d <= 0.0 {
                        0
                    } else if d >= m as f64 {
                        m
                    } else {
                        d as u64
                    }
                } else {
                    let hi = (m64(rb) >> 1) as i64;
                    let lo = -hi - 1;
                    let v = if d.is_nan() { 0 } else { (d as i64).clamp(lo, hi) };
                    v as u64 & m64(rb)
                })
            }
            B::Unknown => {
                let n = format!("call of {}", short_name(name));
                return self.unsupported(s, &n);
            }
        })
    }
    fn cell_term(&mut self, c: (u8, u32)) -> T {
        match Mem::byte_term(&mut self.p, c) {
            Some(t) => t,
            None => self.term(&V::U, 8),
        }
    }
    fn minmax(&mut self, b: B, w: u32, x: &V, y: &V) -> V {
        let p = match b {
            B::UMax => Pred::Ugt,
            B::UMin => Pred::Ult,
            B::SMax => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(p, w, x, y);
        self.select(&c, x, y, &Ty::Int(w)).unwrap()
    }
    fn overflow(&mut self, s: &State, b: B, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(c)) = (x, y) {
            if w <= 64 {
                let (a, c) = (*a, *c);
                let m = m64(w);
                let (sa, sc) = (sx64(a, w) as i128, sx64(c, w) as i128);
                let (r, o): (u128, bool) = match b {
                    B::AddO => {
                        let r = a as u128 + c as u128;
                        (r, r > m as u128)
                    }
                    B::SubO => ((a.wrapping_sub(c)) as u128, a < c),
                    B::MulO => {
                        let r = a as u128 * c as u128;
                        (r, r > m as u128)
                    }
                    B::SAddO | B::SSubO | B::SMulO => {
                        let r = match b {
                            B::SAddO => sa + sc,
                            B::SSubO => sa - sc,
                            _ => sa * sc,
                        };
                        let hi = (m >> 1) as i128;
                        (r as u128, r > hi || r < -hi - 1)
                    }
                    _ => unreachable!(),
                };
                return Ok(V::A(Rc::new(vec![V::C(r as u64 & m), V::C(o as u64)])));
            }
        }
        let (tx, ty) = (self.term(x, w), self.term(y, w));
        let (r, o) = match b {
            B::AddO => {
                let r = self.p.bin(Op::Add, tx, ty);
                (r, self.p.bin(Op::Ult, r, tx))
            }
            B::SubO => (self.p.bin(Op::Sub, tx, ty), self.p.bin(Op::Ult, tx, ty)),
            B::MulO => {
                let r = self.p.bin(Op::Mul, tx, ty);
                let m = mask(w as u8);
                let (c, v) = match (self.p.as_const(tx), self.p.as_const(ty)) {
                    (Some(c), _) => (Some(c), ty),
                    (_, Some(c)) => (Some(c), tx),
                    _ => (None, tx),
                };
                match c {
                    Some(0) => (r, self.p.fls()),
                    Some(c) => {
                        let k = self.p.konst(w as u8, m / c);
                        (r, self.p.bin(Op::Ult, k, v))
                    }
                    None => {
                        if w > 64 {
                            return self.unsupported(s, "wide overflowing multiplication");
                        }
                        let a = self.p.zext(tx, (2 * w) as u8);
                        let c = self.p.zext(ty, (2 * w) as u8);
                        let full = self.p.bin(Op::Mul, a, c);
                        let hi = self.p.extract(full, w as u8, w as u8);
                        let z = self.p.konst(w as u8, 0);
                        let e = self.p.bin(Op::Eq, hi, z);
                        (r, self.p.not(e))
                    }
                }
            }
            B::SAddO | B::SSubO => {
                let a = self.p.sext(tx, (w + 1) as u8);
                let c = self.p.sext(ty, (w + 1) as u8);
                let op = if matches!(b, B::SAddO) { Op::Add } else { Op::Sub };
                let full = self.p.bin(op, a, c);
                let r = self.p.extract(full, 0, w as u8);
                let back = self.p.sext(r, (w + 1) as u8);
                let e = self.p.bin(Op::Eq, back, full);
                (r, self.p.not(e))
            }
            _ => return self.unsupported(s, "symbolic signed multiplication overflow"),
        };
        let (r, o) = (self.val(r), self.val(o));
        Ok(V::A(Rc::new(vec![r, o])))
    }
}

/// A readable approximation of a v0-mangled symbol: its identifiers.
pub fn short_name(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let mut st = j;
                if st < b.len() && b[st] == b'_' {
                    st += 1;
                }
                if l > 0 && st + l <= b.len() {
                    let id = &n[st..st + l];
                    if id.chars().next().map(|c| c.is_ascii_alphabetic() || c == '_').unwrap_or(false) {
                        out.push(id.to_string());
                        i = st + l;
                        continue;
                    }
                }
            }
            i = j;
        } else if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator: skip to the underscore
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.truncate(6);
        out.join("::")
    }
}
