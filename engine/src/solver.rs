//! SMT queries over terms: slicing, caching, z3 translation.
use crate::sat::{Answer, Blaster};
use crate::term::*;
use crate::z3::*;
use crate::fx::HashMap;
use std::time::Instant;

pub enum Sat {
    Sat(Vec<(u32, u128)>), // values for the variables of the slice
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    solver: crate::z3::Solver,
    bv: HashMap<T, Ast>,
    bl: HashMap<T, Ast>,
    cache: HashMap<Vec<T>, Option<Vec<(u32, u128)>>>,
    blaster: Blaster,
    /// Contradictory sets of constraints, by their last one
    cores: HashMap<T, Vec<Vec<T>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknown: u64,
    pub dump_dir: Option<String>,
    pub dumped: u64,
    pub dump_every: u64,
    timeout_ms: u32,
    /// Queries settled by another solver
    pub portfolio: u64,
    /// Queries settled by the incremental solver, those among them checked by z3, and those subsumed by a core
    pub own: u64,
    pub checked: u64,
    pub core_hits: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let ctx = new_context();
        let solver = unsafe {
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, cstr("QF_BV").as_ptr()));
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, cstr("timeout").as_ptr()), timeout_ms.min(300));
            Z3_solver_set_params(ctx, s, p);
            s
        };
        Solver {
            ctx,
            solver,
            bv: HashMap::default(),
            bl: HashMap::default(),
            cache: HashMap::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            cache_hits: 0,
            time: 0.0,
            max_time: 0.0,
            unknown: 0,
            dump_dir: None,
            dumped: 0,
            dump_every: 1,
            timeout_ms,
            portfolio: 0,
            blaster: Blaster::new(),
            cores: HashMap::default(),
            core_hits: 0,
            own: 0,
            checked: 0,
        }
    }

    pub fn conflicts(&self) -> u64 {
        self.blaster.conflicts
    }
    fn mkconst(&self, w: u8, k: u128) -> Ast {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, w as u32))
            } else {
                let lo = Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, 64));
                let hi = Z3_mk_unsigned_int64(self.ctx, (k >> 64) as u64, Z3_mk_bv_sort(self.ctx, (w - 64) as u32));
                Z3_mk_concat(self.ctx, hi, lo)
            }
        }
    }

    /// Translate bottom-up (iteratively) so that both caches are filled.
    fn prepare(&mut self, p: &Pool, t: T) {
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.bv.contains_key(&x) || self.bl.contains_key(&x) {
                continue;
            }
            let n = p.n(x);
            if !done {
                stack.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Extract | Op::ZExt | Op::SExt => stack.push((n.a, false)),
                    Op::Ite => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                        stack.push((n.c, false));
                    }
                    _ => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                    }
                }
                continue;
            }
            self.build(p, x);
        }
    }
    fn as_bv(&mut self, p: &Pool, t: T) -> Ast {
        if let Some(&a) = self.bv.get(&t) {
            return a;
        }
        if let Some(&b) = self.bl.get(&t) {
            let a = unsafe { Z3_mk_ite(self.ctx, b, self.mkconst(1, 1), self.mkconst(1, 0)) };
            self.bv.insert(t, a);
            return a;
        }
        self.build(p, t);
        self.as_bv(p, t)
    }
    fn as_bool(&mut self, p: &Pool, t: T) -> Ast {
        if let Some(&a) = self.bl.get(&t) {
            return a;
        }
        if let Some(&b) = self.bv.get(&t) {
            let a = unsafe { Z3_mk_eq(self.ctx, b, self.mkconst(1, 1)) };
            self.bl.insert(t, a);
            return a;
        }
        self.build(p, t);
        self.as_bool(p, t)
    }
    fn build(&mut self, p: &Pool, t: T) {
        let n = p.n(t);
        let c = self.ctx;
        unsafe {
            if n.w == 1 {
                let r = match n.op {
                    Op::Const => {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::And => {
                        let v = [self.as_bool(p, n.a), self.as_bool(p, n.b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.as_bool(p, n.a), self.as_bool(p, n.b)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        if p.as_const(n.b) == Some(1) {
                            let a = self.as_bool(p, n.a);
                            Z3_mk_not(c, a)
                        } else {
                            let a = self.as_bool(p, n.a);
                            let b = self.as_bool(p, n.b);
                            Z3_mk_xor(c, a, b)
                        }
                    }
                    Op::Ite => {
                        let a = self.as_bool(p, n.a);
                        let x = self.as_bool(p, n.b);
                        let y = self.as_bool(p, n.c);
                        Z3_mk_ite(c, a, x, y)
                    }
                    Op::Eq => {
                        let a = self.as_bv(p, n.a);
                        let b = self.as_bv(p, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                    Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let a = self.as_bv(p, n.a);
                        let b = self.as_bv(p, n.b);
                        match n.op {
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            _ => Z3_mk_bvsle(c, a, b),
                        }
                    }
                    _ => {
                        let a = self.build_bv(p, n);
                        self.bv.insert(t, a);
                        return;
                    }
                };
                self.bl.insert(t, r);
            } else {
                let a = self.build_bv(p, n);
                self.bv.insert(t, a);
            }
        }
    }
    unsafe fn build_bv(&mut self, p: &Pool, n: Node) -> Ast {
        let c = self.ctx;
        match n.op {
            Op::Const => self.mkconst(n.w, n.k),
            Op::Var => {
                let name = cstr(&format!("v{}", n.k));
                Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bv_sort(c, n.w as u32))
            }
            Op::Extract => {
                let a = self.as_bv(p, n.a);
                Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a)
            }
            Op::ZExt => {
                let a = self.as_bv(p, n.a);
                Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as u32, a)
            }
            Op::SExt => {
                let a = self.as_bv(p, n.a);
                Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, a)
            }
            Op::Ite => {
                let a = self.as_bool(p, n.a);
                let x = self.as_bv(p, n.b);
                let y = self.as_bv(p, n.c);
                Z3_mk_ite(c, a, x, y)
            }
            _ => {
                let a = self.as_bv(p, n.a);
                let b = self.as_bv(p, n.b);
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    _ => panic!("build_bv {:?}", n.op),
                }
            }
        }
    }

    /// Our own incremental solver, which settles most queries
    fn incremental(&mut self, p: &mut Pool, key: &[T]) -> Option<Sat> {
        if self.blaster.size() > 60_000_000 {
            self.blaster = Blaster::new();
        }
        let core = match self.blaster.solve(p, key, 15_000) {
            Answer::Unknown => return None,
            Answer::Sat => {
                let mut vs: Vec<u32> = vec![];
                for &c in key {
                    vs.extend(p.varset(c).iter());
                }
                vs.sort_unstable();
                vs.dedup();
                let mut out = Vec::with_capacity(vs.len());
                let mut m = HashMap::default();
                for v in vs {
                    let t = p.var(v);
                    let x = self.blaster.model(p, t);
                    m.insert(v, x);
                    out.push((v, x));
                }
                // Never trust a model
                let mut memo = HashMap::default();
                for &c in key {
                    let ok = p.eval(c, &|v| m.get(&v).copied().unwrap_or(0), &mut memo) == 1;
                    assert!(ok, "the incremental solver found a wrong model");
                }
                self.own += 1;
                self.sat += 1;
                self.cache.insert(key.to_vec(), Some(out.clone()));
                return Some(Sat::Sat(out));
            }
            Answer::Unsat(core) => core,
        };
        self.own += 1;
        self.unsat += 1;
        let mut k: Vec<T> = core.iter().map(|i| key[*i]).collect();
        k.sort_unstable();
        if self.unsat % 64 == 1 || self.dump_dir.is_some() && self.unsat % self.dump_every == 1 {
            // Nor every refutation
            unsafe {
                Z3_solver_reset(self.ctx, self.solver);
                for &c in &k {
                    self.prepare(p, c);
                    let a = self.as_bool(p, c);
                    Z3_solver_assert(self.ctx, self.solver, a);
                }
                if let Some(d) = &self.dump_dir {
                    if self.dumped < 200 {
                        let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                        let _ = std::fs::write(
                            format!("{}/q{}_unsat.smt2", d, self.queries),
                            format!("; expected unsat\n(set-logic QF_BV)\n{}\n(check-sat)\n", s),
                        );
                        self.dumped += 1;
                    }
                }
                match Z3_solver_check(self.ctx, self.solver) {
                    1 => panic!("the incremental solver refuted a satisfiable query"),
                    -1 => self.checked += 1,
                    _ => (),
                }
            }
        }
        let last = *k.last().unwrap();
        self.cores.entry(last).or_default().push(k);
        Some(Sat::Unsat)
    }

    /// Is `cs` (a conjunction) satisfiable?  `vars` = variables to report.
    pub fn check(&mut self, p: &mut Pool, cs: &[T]) -> Sat {
        let mut key: Vec<T> = Vec::with_capacity(cs.len());
        for &c in cs {
            match p.as_const(c) {
                Some(1) => {}
                Some(_) => return Sat::Unsat,
                None => key.push(c),
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Sat::Sat(vec![]);
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Sat::Sat(m.clone()),
                None => Sat::Unsat,
            };
        }
        for c in &key {
            if let Some(cs) = self.cores.get(c) {
                if cs.iter().any(|k| k.iter().all(|x| key.binary_search(x).is_ok())) {
                    self.core_hits += 1;
                    return Sat::Unsat;
                }
            }
        }
        self.queries += 1;
        let t0 = Instant::now();
        if let Some(r) = self.incremental(p, &key) {
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            self.max_time = self.max_time.max(dt);
            return r;
        }
        unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &c in &key {
                self.prepare(p, c);
                let a = self.as_bool(p, c);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            let mut r = Z3_solver_check(self.ctx, self.solver);
            let mut vs: Vec<u32> = vec![];
            for &c in &key {
                vs.extend(p.varset(c).iter());
            }
            vs.sort_unstable();
            vs.dedup();
            let mut other = None;
            if r == 0 {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                match portfolio(&s, &vs, self.timeout_ms) {
                    Sat::Sat(m) => {
                        r = 1;
                        other = Some(m);
                        self.portfolio += 1;
                    }
                    Sat::Unsat => {
                        r = -1;
                        self.portfolio += 1;
                    }
                    Sat::Unknown => (),
                }
            }
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            if let Some(d) = &self.dump_dir {
                if self.queries % self.dump_every == 0 && self.dumped < 200 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    let st = if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" };
                    let _ = std::fs::write(
                        format!("{}/q{}_{}.smt2", d, self.queries, st),
                        format!("; expected {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", st, s),
                    );
                    self.dumped += 1;
                }
            }
            match r {
                -1 => {
                    self.unsat += 1;
                    self.cache.insert(key, None);
                    Sat::Unsat
                }
                1 => {
                    self.sat += 1;
                    if let Some(out) = other {
                        self.cache.insert(key, Some(out.clone()));
                        return Sat::Sat(out);
                    }
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vs {
                        let w = p.vars[v as usize].w;
                        let name = cstr(&format!("v{}", v));
                        let a = Z3_mk_const(
                            self.ctx,
                            Z3_mk_string_symbol(self.ctx, name.as_ptr()),
                            Z3_mk_bv_sort(self.ctx, w as u32),
                        );
                        let get = |a: Ast| -> u64 {
                            let mut o: Ast = std::ptr::null_mut();
                            let ok = Z3_model_eval(self.ctx, m, a, true, &mut o);
                            assert!(ok);
                            let mut val = 0u64;
                            let ok = Z3_get_numeral_uint64(self.ctx, o, &mut val);
                            assert!(ok);
                            val
                        };
                        let val = if w <= 64 {
                            get(a) as u128
                        } else {
                            let lo = get(Z3_mk_extract(self.ctx, 63, 0, a)) as u128;
                            let hi = get(Z3_mk_extract(self.ctx, w as u32 - 1, 64, a)) as u128;
                            (hi << 64) | lo
                        };
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.cache.insert(key, Some(out.clone()));
                    Sat::Sat(out)
                }
                _ => {
                    self.unknown += 1;
                    Sat::Unknown
                }
            }
        }
    }
}

/// Ask other solvers about a query the first one gave up on: whichever answers first decides.
fn portfolio(query: &str, vars: &[u32], timeout_ms: u32) -> Sat {
    use std::process::{Command, Stdio};
    let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
    let text = format!(
        "(set-option :produce-models true)\n(set-logic QF_BV)\n{}\n(check-sat)\n(get-value ({}))\n",
        query,
        names.join(" ")
    );
    let dir = std::env::temp_dir();
    let base = dir.join(format!("symex-{}-{:x}", std::process::id(), vars.len() as u64 ^ (query.as_ptr() as u64)));
    let file = base.with_extension("smt2");
    if std::fs::write(&file, &text).is_err() {
        return Sat::Unknown;
    }
    let secs = (timeout_ms / 1000).max(1);
    let cmds: [(&str, Vec<String>); 2] = [
        ("cvc5", vec![format!("--tlimit={}", timeout_ms), file.display().to_string()]),
        ("z3-new", vec![format!("-T:{}", secs), file.display().to_string()]),
    ];
    let mut kids = vec![];
    for (i, (c, args)) in cmds.iter().enumerate() {
        let out = base.with_extension(format!("out{}", i));
        let Ok(f) = std::fs::File::create(&out) else { continue };
        if let Ok(k) = Command::new(c).args(args).stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn() {
            kids.push((k, out));
        }
    }
    let t0 = Instant::now();
    let mut ans = Sat::Unknown;
    let mut done = vec![false; kids.len()];
    'wait: while t0.elapsed().as_millis() < timeout_ms as u128 + 2000 && done.iter().any(|d| !d) {
        for (i, (k, out)) in kids.iter_mut().enumerate() {
            if done[i] || !matches!(k.try_wait(), Ok(Some(_))) {
                continue;
            }
            done[i] = true;
            let s = std::fs::read_to_string(&out).unwrap_or_default();
            let l = s.lines().next().unwrap_or("").trim();
            if l == "unsat" {
                ans = Sat::Unsat;
                break 'wait;
            }
            if l == "sat" {
                if let Some(m) = values(&s, vars) {
                    ans = Sat::Sat(m);
                    break 'wait;
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    for (mut k, out) in kids {
        let _ = k.kill();
        let _ = k.wait();
        let _ = std::fs::remove_file(out);
    }
    let _ = std::fs::remove_file(file);
    ans
}

/// The values of a `get-value` answer
fn values(s: &str, vars: &[u32]) -> Option<Vec<(u32, u128)>> {
    let mut words = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|w| !w.is_empty());
    let mut m = HashMap::default();
    while let Some(w) = words.next() {
        if let Some(v) = w.strip_prefix('v').and_then(|v| v.parse::<u32>().ok()) {
            let x = words.next()?;
            let x = if let Some(h) = x.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else if let Some(b) = x.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()?
            } else {
                return None;
            };
            m.insert(v, x);
        }
    }
    vars.iter().map(|v| m.get(v).map(|x| (*v, *x))).collect()
}
