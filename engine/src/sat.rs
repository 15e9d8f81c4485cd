//! Bit-blasting of terms into a circuit and an incremental CDCL solver for it.
//!
//! Gates stay from query to query (with what was learned about them); a query assumes the literals of its
//! constraints and decides only on the inputs and gates they depend on. All other gates are functions of
//! inputs, so that their values can always be filled in.
use crate::term::*;
use crate::fx::HashMap;

pub type Lit = u32;
const TRUE: Lit = 0;
const FALSE: Lit = 1;
const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Kind {
    Input,
    And,
    Xor,
    Mux,
    Maj,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Gate {
    kind: Kind,
    a: Lit,
    b: Lit,
    c: Lit,
}
#[derive(Clone, Copy)]
struct Watch {
    clause: u32,
    other: Lit,
}

pub enum Answer {
    Sat,
    /// The constraints that contradict each other (indices into the query)
    Unsat(Vec<usize>),
    Unknown,
}

pub struct Blaster {
    gates: Vec<Gate>,
    hash: HashMap<Gate, Lit>,
    bits: HashMap<T, u32>,
    arena: Vec<Lit>,
    // clauses: length, learnt flag, activity, literals
    db: Vec<u32>,
    learnt: Vec<u32>,
    watches: Vec<Vec<Watch>>,
    value: Vec<u8>, // by literal: 0 unassigned, 1 true, 2 false
    level: Vec<u32>,
    reason: Vec<u32>,
    phase: Vec<bool>,
    activity: Vec<f64>,
    bump: f64,
    trail: Vec<Lit>,
    limits: Vec<usize>,
    head: usize,
    heap: Vec<u32>,
    place: Vec<u32>,
    cone: Vec<u32>,
    stamp: u32,
    seen: Vec<u8>,
    pub conflicts: u64,
    max_learnt: usize,
    broken: bool,
}

fn neg(l: Lit) -> Lit {
    l ^ 1
}
fn var(l: Lit) -> usize {
    (l >> 1) as usize
}

impl Blaster {
    pub fn new() -> Self {
        let mut s = Blaster {
            gates: vec![],
            hash: HashMap::default(),
            bits: HashMap::default(),
            arena: vec![],
            db: vec![],
            learnt: vec![],
            watches: vec![],
            value: vec![],
            level: vec![],
            reason: vec![],
            phase: vec![],
            activity: vec![],
            bump: 1.0,
            trail: vec![],
            limits: vec![],
            head: 0,
            heap: vec![],
            place: vec![],
            cone: vec![],
            stamp: 0,
            seen: vec![],
            conflicts: 0,
            max_learnt: 4000,
            broken: false,
        };
        s.fresh(Gate { kind: Kind::Input, a: 0, b: 0, c: 0 });
        s.assign(TRUE, NONE);
        s.head = 1;
        s
    }
    pub fn size(&self) -> usize {
        self.db.len()
    }

    // ---------- the circuit ----------
    fn fresh(&mut self, g: Gate) -> Lit {
        let v = self.gates.len() as u32;
        self.gates.push(g);
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.value.push(0);
        self.value.push(0);
        self.level.push(0);
        self.reason.push(NONE);
        self.phase.push(false);
        self.activity.push(0.0);
        self.place.push(NONE);
        self.cone.push(0);
        self.seen.push(0);
        v * 2
    }
    fn gate(&mut self, kind: Kind, a: Lit, b: Lit, c: Lit) -> Lit {
        let g = Gate { kind, a, b, c };
        if let Some(&l) = self.hash.get(&g) {
            return l;
        }
        let o = self.fresh(g);
        self.hash.insert(g, o);
        let n = neg(o);
        match kind {
            Kind::Input => (),
            Kind::And => {
                self.clause(&[neg(a), neg(b), o]);
                self.clause(&[a, n]);
                self.clause(&[b, n]);
            }
            Kind::Xor => {
                self.clause(&[neg(a), neg(b), n]);
                self.clause(&[a, b, n]);
                self.clause(&[neg(a), b, o]);
                self.clause(&[a, neg(b), o]);
            }
            Kind::Mux => {
                // a ? b : c
                self.clause(&[neg(a), neg(b), o]);
                self.clause(&[neg(a), b, n]);
                self.clause(&[a, neg(c), o]);
                self.clause(&[a, c, n]);
                self.clause(&[neg(b), neg(c), o]);
                self.clause(&[b, c, n]);
            }
            Kind::Maj => {
                self.clause(&[neg(a), neg(b), o]);
                self.clause(&[neg(a), neg(c), o]);
                self.clause(&[neg(b), neg(c), o]);
                self.clause(&[a, b, n]);
                self.clause(&[a, c, n]);
                self.clause(&[b, c, n]);
            }
        }
        o
    }
    fn and(&mut self, mut a: Lit, mut b: Lit) -> Lit {
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if a == FALSE || a == neg(b) {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        for (x, y) in [(a, b), (b, a)] {
            let g = self.gates[var(y)];
            if g.kind == Kind::And {
                if y & 1 == 0 {
                    if x == g.a || x == g.b {
                        return y;
                    }
                    if x == neg(g.a) || x == neg(g.b) {
                        return FALSE;
                    }
                } else {
                    if x == neg(g.a) || x == neg(g.b) {
                        return x;
                    }
                    if x == g.a {
                        return self.and(x, neg(g.b));
                    }
                    if x == g.b {
                        return self.and(x, neg(g.a));
                    }
                }
            }
        }
        self.gate(Kind::And, a, b, 0)
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (mut a, mut b) = (a & !1, b & !1);
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            return FALSE ^ s;
        }
        if a == TRUE {
            return neg(b) ^ s;
        }
        self.gate(Kind::Xor, a, b, 0) ^ s
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if c & 1 == 1 {
            return self.mux(neg(c), b, a);
        }
        if a == neg(b) {
            return self.xor(c, b);
        }
        if a == TRUE || a == c {
            return self.or(c, b);
        }
        if a == FALSE || a == neg(c) {
            return self.and(neg(c), b);
        }
        if b == TRUE || b == neg(c) {
            return self.or(neg(c), a);
        }
        if b == FALSE || b == c {
            return self.and(c, a);
        }
        let s = a & 1;
        self.gate(Kind::Mux, c, a ^ s, b ^ s) ^ s
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let mut v = [a, b, c];
        v.sort_unstable();
        let [a, b, c] = v;
        if a == TRUE {
            return self.or(b, c);
        }
        if a == FALSE {
            return self.and(b, c);
        }
        if a == b {
            return a;
        }
        if b == c {
            return b;
        }
        if a == neg(b) {
            return c;
        }
        if b == neg(c) {
            return a;
        }
        let s = a & 1;
        self.gate(Kind::Maj, a ^ s, b ^ s, c ^ s) ^ s
    }
    fn add(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut o = Vec::with_capacity(a.len());
        for (&x, &y) in a.iter().zip(b) {
            let p = self.xor(x, y);
            o.push(self.xor(p, c));
            c = self.maj(x, y, c);
        }
        (o, c)
    }
    fn less(&mut self, a: &[Lit], b: &[Lit], mut r: Lit) -> Lit {
        for (&x, &y) in a.iter().zip(b) {
            r = self.maj(neg(x), y, r);
        }
        r
    }
    fn mux_all(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        a.iter().zip(b).map(|(&x, &y)| self.mux(c, x, y)).collect()
    }
    fn mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        let known = |v: &[Lit]| v.iter().filter(|l| **l == FALSE).count();
        let (a, b) = if known(a) > known(b) { (b, a) } else { (a, b) };
        let mut o = vec![FALSE; n];
        for i in 0..n {
            if b[i] == FALSE {
                continue;
            }
            let row: Vec<Lit> = a[..n - i].iter().map(|&x| self.and(x, b[i])).collect();
            let (s, _) = self.add(&o[i..].to_vec(), &row, FALSE);
            o[i..].copy_from_slice(&s);
        }
        o
    }
    fn divide(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let n = a.len();
        let mut q = vec![FALSE; n];
        let mut r: Vec<Lit> = vec![FALSE; n];
        let nb: Vec<Lit> = b.iter().map(|l| neg(*l)).chain([TRUE]).collect();
        for i in (0..n).rev() {
            let mut t = vec![a[i]];
            t.extend_from_slice(&r);
            // t - b over n + 1 bits: no borrow iff t >= b
            let (d, c) = self.add(&t, &nb, TRUE);
            q[i] = c;
            r = self.mux_all(c, &d[..n], &t[..n]);
        }
        (q, r)
    }
    fn negate(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n: Vec<Lit> = a.iter().map(|l| neg(*l)).collect();
        let z = vec![FALSE; a.len()];
        self.add(&n, &z, TRUE).0
    }
    fn signed(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let n = a.len();
        let (sa, sb) = (a[n - 1], b[n - 1]);
        let (na, nb) = (self.negate(a), self.negate(b));
        let (x, y) = (self.mux_all(sa, &na, a), self.mux_all(sb, &nb, b));
        let (q, r) = self.divide(&x, &y);
        let s = self.xor(sa, sb);
        let (nq, nr) = (self.negate(&q), self.negate(&r));
        (self.mux_all(s, &nq, &q), self.mux_all(sa, &nr, &r))
    }
    fn shift(&mut self, a: &[Lit], b: &[Lit], left: bool, fill: Lit) -> Vec<Lit> {
        let n = a.len();
        let mut v = a.to_vec();
        let mut far = FALSE;
        for (k, &s) in b.iter().enumerate() {
            if k < 31 && (1usize << k) < n {
                let d = 1 << k;
                let moved: Vec<Lit> = (0..n)
                    .map(|i| {
                        if left {
                            if i >= d {
                                v[i - d]
                            } else {
                                fill
                            }
                        } else if i + d < n {
                            v[i + d]
                        } else {
                            fill
                        }
                    })
                    .collect();
                v = self.mux_all(s, &moved, &v);
            } else {
                far = self.or(far, s);
            }
        }
        let f = vec![fill; n];
        self.mux_all(far, &f, &v)
    }

    fn get(&self, p: &Pool, t: T) -> Vec<Lit> {
        let w = p.w(t) as usize;
        let at = self.bits[&t] as usize;
        self.arena[at..at + w].to_vec()
    }
    fn blast(&mut self, p: &Pool, t: T) {
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.bits.contains_key(&x) {
                continue;
            }
            let n = p.n(x);
            if !done {
                stack.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Extract | Op::ZExt | Op::SExt => stack.push((n.a, false)),
                    Op::Ite => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                        stack.push((n.c, false));
                    }
                    _ => {
                        stack.push((n.a, false));
                        stack.push((n.b, false));
                    }
                }
                continue;
            }
            let w = n.w as usize;
            let v: Vec<Lit> = match n.op {
                Op::Const => (0..w).map(|i| if n.k >> i & 1 == 1 { TRUE } else { FALSE }).collect(),
                Op::Var => (0..w).map(|_| self.fresh(Gate { kind: Kind::Input, a: 0, b: 0, c: 0 })).collect(),
                Op::Extract => {
                    let a = self.get(p, n.a);
                    a[n.k as usize..n.k as usize + w].to_vec()
                }
                Op::ZExt => {
                    let mut a = self.get(p, n.a);
                    a.resize(w, FALSE);
                    a
                }
                Op::SExt => {
                    let mut a = self.get(p, n.a);
                    let s = a[a.len() - 1];
                    a.resize(w, s);
                    a
                }
                Op::Ite => {
                    let c = self.get(p, n.a)[0];
                    let (a, b) = (self.get(p, n.b), self.get(p, n.c));
                    self.mux_all(c, &a, &b)
                }
                _ => {
                    let (a, b) = (self.get(p, n.a), self.get(p, n.b));
                    match n.op {
                        Op::Add => self.add(&a, &b, FALSE).0,
                        Op::Sub => {
                            let nb: Vec<Lit> = b.iter().map(|l| neg(*l)).collect();
                            self.add(&a, &nb, TRUE).0
                        }
                        Op::Mul => self.mul(&a, &b),
                        Op::UDiv => self.divide(&a, &b).0,
                        Op::URem => self.divide(&a, &b).1,
                        Op::SDiv => self.signed(&a, &b).0,
                        Op::SRem => self.signed(&a, &b).1,
                        Op::Shl => self.shift(&a, &b, true, FALSE),
                        Op::LShr => self.shift(&a, &b, false, FALSE),
                        Op::AShr => self.shift(&a, &b, false, a[w - 1]),
                        Op::And => a.iter().zip(&b).map(|(&x, &y)| self.and(x, y)).collect(),
                        Op::Or => a.iter().zip(&b).map(|(&x, &y)| self.or(x, y)).collect(),
                        Op::Xor => a.iter().zip(&b).map(|(&x, &y)| self.xor(x, y)).collect(),
                        Op::Concat => b.iter().chain(&a).copied().collect(),
                        Op::Eq => {
                            let mut r = TRUE;
                            for (&x, &y) in a.iter().zip(&b) {
                                let e = neg(self.xor(x, y));
                                r = self.and(r, e);
                            }
                            vec![r]
                        }
                        Op::Ult => vec![self.less(&a, &b, FALSE)],
                        Op::Ule => vec![self.less(&a, &b, TRUE)],
                        Op::Slt | Op::Sle => {
                            let (mut a, mut b) = (a, b);
                            let m = a.len() - 1;
                            a[m] = neg(a[m]);
                            b[m] = neg(b[m]);
                            vec![self.less(&a, &b, if n.op == Op::Sle { TRUE } else { FALSE })]
                        }
                        _ => unreachable!(),
                    }
                }
            };
            debug_assert_eq!(v.len(), w);
            let at = self.arena.len() as u32;
            self.arena.extend(v);
            self.bits.insert(x, at);
        }
    }
    /// The value of a variable in the model found
    pub fn model(&self, p: &Pool, t: T) -> u128 {
        let Some(&at) = self.bits.get(&t) else { return 0 };
        let mut v = 0u128;
        for i in 0..p.w(t) as usize {
            let l = self.arena[at as usize + i];
            // Inputs no decision was made about do not matter
            let set = self.value[l as usize] == 1;
            v |= (set as u128) << i;
        }
        v
    }

    // ---------- the solver ----------
    fn clause(&mut self, ls: &[Lit]) {
        // At level zero: drop what is false, forget what is true
        let mut v: Vec<Lit> = Vec::with_capacity(ls.len());
        for &l in ls {
            match self.value[l as usize] {
                1 => return,
                2 => (),
                _ => {
                    if v.contains(&neg(l)) {
                        return;
                    }
                    if !v.contains(&l) {
                        v.push(l)
                    }
                }
            }
        }
        match v.len() {
            0 => self.broken = true,
            1 => {
                self.assign(v[0], NONE);
                if self.propagate() != NONE {
                    self.broken = true;
                }
            }
            _ => {
                self.attach(&v, false);
            }
        }
    }
    fn attach(&mut self, v: &[Lit], learnt: bool) -> u32 {
        let c = self.db.len() as u32;
        self.db.push(v.len() as u32);
        self.db.push(learnt as u32);
        self.db.push(0);
        self.db.extend_from_slice(v);
        self.watches[neg(v[0]) as usize].push(Watch { clause: c, other: v[1] });
        self.watches[neg(v[1]) as usize].push(Watch { clause: c, other: v[0] });
        if learnt {
            self.learnt.push(c);
        }
        c
    }
    fn assign(&mut self, l: Lit, why: u32) {
        self.value[l as usize] = 1;
        self.value[neg(l) as usize] = 2;
        self.level[var(l)] = self.limits.len() as u32;
        self.reason[var(l)] = why;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.head < self.trail.len() {
            let l = self.trail[self.head];
            self.head += 1;
            let mut ws = std::mem::take(&mut self.watches[l as usize]);
            let (mut i, mut j) = (0, 0);
            let f = neg(l);
            let mut conflict = NONE;
            'next: while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.value[w.other as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let at = w.clause as usize + 3;
                let n = self.db[w.clause as usize] as usize;
                if self.db[at] == f {
                    self.db.swap(at, at + 1);
                }
                let first = self.db[at];
                let nw = Watch { clause: w.clause, other: first };
                if first != w.other && self.value[first as usize] == 1 {
                    ws[j] = nw;
                    j += 1;
                    continue;
                }
                for k in 2..n {
                    let x = self.db[at + k];
                    if self.value[x as usize] != 2 {
                        self.db.swap(at + 1, at + k);
                        self.watches[neg(x) as usize].push(nw);
                        continue 'next;
                    }
                }
                ws[j] = nw;
                j += 1;
                if self.value[first as usize] == 2 {
                    conflict = w.clause;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                    self.head = self.trail.len();
                } else {
                    self.assign(first, w.clause);
                }
            }
            ws.truncate(j);
            self.watches[l as usize] = ws;
            if conflict != NONE {
                return conflict;
            }
        }
        NONE
    }
    fn cancel(&mut self, to: usize) {
        if self.limits.len() <= to {
            return;
        }
        let n = self.limits[to];
        while self.trail.len() > n {
            let l = self.trail.pop().unwrap();
            self.value[l as usize] = 0;
            self.value[neg(l) as usize] = 0;
            let v = var(l);
            self.phase[v] = l & 1 == 0;
            if self.cone[v] == self.stamp {
                self.push(v as u32);
            }
        }
        self.limits.truncate(to);
        self.head = n;
    }
    // The heap of variables to decide on
    fn up(&mut self, mut i: usize) {
        let v = self.heap[i];
        let a = self.activity[v as usize];
        while i > 0 {
            let q = (i - 1) / 2;
            let u = self.heap[q];
            if self.activity[u as usize] >= a {
                break;
            }
            self.heap[i] = u;
            self.place[u as usize] = i as u32;
            i = q;
        }
        self.heap[i] = v;
        self.place[v as usize] = i as u32;
    }
    fn down(&mut self, mut i: usize) {
        let v = self.heap[i];
        let a = self.activity[v as usize];
        loop {
            let mut k = 2 * i + 1;
            if k >= self.heap.len() {
                break;
            }
            if k + 1 < self.heap.len() && self.activity[self.heap[k + 1] as usize] > self.activity[self.heap[k] as usize] {
                k += 1;
            }
            let u = self.heap[k];
            if self.activity[u as usize] <= a {
                break;
            }
            self.heap[i] = u;
            self.place[u as usize] = i as u32;
            i = k;
        }
        self.heap[i] = v;
        self.place[v as usize] = i as u32;
    }
    fn push(&mut self, v: u32) {
        if self.place[v as usize] == NONE {
            self.heap.push(v);
            self.up(self.heap.len() - 1);
        }
    }
    fn pop(&mut self) -> Option<u32> {
        let v = *self.heap.first()?;
        let last = self.heap.pop().unwrap();
        self.place[v as usize] = NONE;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.place[last as usize] = 0;
            self.down(0);
        }
        Some(v)
    }
    fn bump_var(&mut self, v: usize) {
        self.activity[v] += self.bump;
        if self.activity[v] > 1e100 {
            for a in &mut self.activity {
                *a *= 1e-100;
            }
            self.bump *= 1e-100;
        }
        if self.place[v] != NONE {
            self.up(self.place[v] as usize);
        }
    }
    fn lits(&self, c: u32) -> std::ops::Range<usize> {
        let at = c as usize + 3;
        at..at + self.db[c as usize] as usize
    }
    fn analyze(&mut self, mut c: u32) -> (Vec<Lit>, usize) {
        let mut out = vec![0];
        let mut open = 0;
        let mut i = self.trail.len();
        let mut l = NONE;
        let now = self.limits.len() as u32;
        let mut clear = vec![];
        loop {
            if self.db[c as usize + 1] == 1 {
                self.db[c as usize + 2] = self.conflicts as u32;
            }
            for k in self.lits(c) {
                let q = self.db[k];
                if q == l {
                    continue;
                }
                let v = var(q);
                if self.seen[v] == 0 && self.level[v] > 0 {
                    self.seen[v] = 1;
                    clear.push(v);
                    self.bump_var(v);
                    if self.level[v] == now {
                        open += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                i -= 1;
                if self.seen[var(self.trail[i])] != 0 {
                    break;
                }
            }
            l = self.trail[i];
            open -= 1;
            if open == 0 {
                break;
            }
            c = self.reason[var(l)];
        }
        out[0] = neg(l);
        // Drop literals implied by the others
        let mut keep = vec![out[0]];
        for &q in &out[1..] {
            if self.reason[var(q)] == NONE || !self.implied(q, &mut clear) {
                keep.push(q);
            }
        }
        for v in clear {
            self.seen[v] = 0;
        }
        let mut back = 0;
        if keep.len() > 1 {
            let mut m = 1;
            for k in 2..keep.len() {
                if self.level[var(keep[k])] > self.level[var(keep[m])] {
                    m = k;
                }
            }
            keep.swap(1, m);
            back = self.level[var(keep[1])] as usize;
        }
        (keep, back)
    }
    fn implied(&mut self, l: Lit, clear: &mut Vec<usize>) -> bool {
        // seen: 1 in the clause or implied by it, 2 not implied
        let mut stack = vec![l];
        let start = clear.len();
        while let Some(x) = stack.pop() {
            let c = self.reason[var(x)];
            for k in self.lits(c) {
                let q = self.db[k];
                let v = var(q);
                if v == var(x) || self.seen[v] == 1 || self.level[v] == 0 {
                    continue;
                }
                if self.reason[v] == NONE || self.seen[v] == 2 {
                    // What was marked on the way is undecided
                    for &u in &clear[start..] {
                        self.seen[u] = 2;
                    }
                    return false;
                }
                self.seen[v] = 1;
                clear.push(v);
                stack.push(q);
            }
        }
        true
    }
    /// The assumptions that imply the falsity of an assumption
    fn core(&mut self, l: Lit, assumed: &HashMap<Lit, usize>) -> Vec<usize> {
        let mut out = vec![assumed[&l]];
        self.seen[var(l)] = 1;
        let start = self.limits.first().copied().unwrap_or(self.trail.len());
        for i in (start..self.trail.len()).rev() {
            let x = self.trail[i];
            let v = var(x);
            if self.seen[v] == 0 {
                continue;
            }
            self.seen[v] = 0;
            let c = self.reason[v];
            if c == NONE {
                if let Some(&k) = assumed.get(&x) {
                    out.push(k);
                }
            } else {
                for k in self.lits(c) {
                    let u = var(self.db[k]);
                    if u != v && self.level[u] > 0 {
                        self.seen[u] = 1;
                    }
                }
            }
        }
        self.seen[var(l)] = 0;
        out.sort_unstable();
        out.dedup();
        out
    }
    fn reduce(&mut self) {
        let mut ls: Vec<u32> = std::mem::take(&mut self.learnt);
        let db = &self.db;
        ls.sort_by_key(|&c| std::cmp::Reverse(if db[c as usize] <= 3 { u32::MAX } else { db[c as usize + 2] }));
        let locked = |s: &Self, c: u32| {
            let l = s.db[c as usize + 3];
            s.value[l as usize] == 1 && s.reason[var(l)] == c
        };
        let mut drop = crate::fx::HashSet::default();
        let half = ls.len() / 2;
        for (i, &c) in ls.iter().enumerate() {
            if i < half || self.db[c as usize] <= 3 || locked(self, c) {
                self.learnt.push(c);
            } else {
                drop.insert(c);
            }
        }
        for w in &mut self.watches {
            w.retain(|w| !drop.contains(&w.clause));
        }
        self.max_learnt += self.max_learnt / 10;
    }

    /// Can all constraints hold at once? Decides at most `budget` conflicts.
    pub fn solve(&mut self, p: &Pool, cs: &[T], budget: u64) -> Answer {
        self.cancel(0);
        for &c in cs {
            self.blast(p, c);
        }
        if self.broken {
            return Answer::Unknown;
        }
        let roots: Vec<Lit> = cs.iter().map(|c| self.arena[self.bits[c] as usize]).collect();
        let mut assumed = HashMap::default();
        for (i, &l) in roots.iter().enumerate() {
            assumed.entry(l).or_insert(i);
        }
        // What the constraints depend on
        self.stamp += 1;
        for &v in &std::mem::take(&mut self.heap) {
            self.place[v as usize] = NONE;
        }
        let mut todo: Vec<u32> = roots.iter().map(|l| l >> 1).collect();
        while let Some(v) = todo.pop() {
            if self.cone[v as usize] == self.stamp {
                continue;
            }
            self.cone[v as usize] = self.stamp;
            let g = self.gates[v as usize];
            match g.kind {
                Kind::Input => (),
                Kind::And | Kind::Xor => todo.extend([g.a >> 1, g.b >> 1]),
                _ => todo.extend([g.a >> 1, g.b >> 1, g.c >> 1]),
            }
            if self.value[v as usize * 2] == 0 {
                self.push(v);
            }
        }
        let start = self.conflicts;
        let mut restart = 1u64;
        let mut until = self.conflicts + 100 * luby(restart);
        loop {
            let c = self.propagate();
            if c != NONE {
                self.conflicts += 1;
                if self.limits.is_empty() {
                    // The circuit itself has no contradictions
                    self.broken = true;
                    return Answer::Unknown;
                }
                let (ls, back) = self.analyze(c);
                self.cancel(back);
                if ls.len() == 1 {
                    self.assign(ls[0], NONE);
                } else {
                    let c = self.attach(&ls, true);
                    self.db[c as usize + 2] = self.conflicts as u32;
                    self.assign(ls[0], c);
                }
                self.bump /= 0.95;
                continue;
            }
            if self.conflicts - start > budget {
                self.cancel(0);
                return Answer::Unknown;
            }
            if self.conflicts >= until {
                restart += 1;
                until = self.conflicts + 100 * luby(restart);
                self.cancel(0);
                if self.learnt.len() > self.max_learnt {
                    self.reduce();
                }
                continue;
            }
            let d = self.limits.len();
            if d < roots.len() {
                let l = roots[d];
                match self.value[l as usize] {
                    1 => self.limits.push(self.trail.len()),
                    2 => {
                        let core = self.core(neg(neg(l)), &assumed);
                        self.cancel(0);
                        return Answer::Unsat(core);
                    }
                    _ => {
                        self.limits.push(self.trail.len());
                        self.assign(l, NONE);
                    }
                }
                continue;
            }
            let v = loop {
                match self.pop() {
                    None => return Answer::Sat, // the caller reads the model first
                    Some(v) if self.value[v as usize * 2] == 0 => break v,
                    _ => (),
                }
            };
            self.limits.push(self.trail.len());
            self.assign(v * 2 + !self.phase[v as usize] as u32, NONE);
        }
    }
}

fn luby(mut i: u64) -> u64 {
    loop {
        let k = 64 - i.leading_zeros() as u64;
        if i == (1 << k) - 1 {
            return 1 << (k - 1);
        }
        i -= (1 << (k - 1)) - 1;
    }
}
