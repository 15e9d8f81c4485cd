//! Control-flow facts of a function: weak topological order (for scheduling) and liveness.
use crate::ir::*;
use std::cell::{Cell, RefCell};

#[derive(Debug)]
pub struct Cfg {
    pub succs: Vec<Vec<u32>>,
    pub npreds: Vec<u32>,
    /// position in the weak topological order
    pub pos: Vec<u32>,
    /// innermost component of each block (index into comps) or NONE
    pub comp: Vec<u32>,
    /// component: (head block, parent component, depth)
    pub comps: Vec<(u32, u32, u32)>,
    pub depth: Vec<u32>,
    live_in: RefCell<Option<Vec<Vec<u64>>>>,
    pub visited: Vec<Cell<bool>>,
}

pub fn inst_succs(i: &I) -> Vec<u32> {
    match i {
        I::Br(a) => vec![*a],
        I::CondBr(_, a, b) => vec![*a, *b],
        I::Switch(_, _, d, cs) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|c| c.1));
            v
        }
        I::Call { normal, .. } if *normal != NONE => vec![*normal],
        _ => vec![],
    }
}

impl Cfg {
    pub fn build(blocks: &[Block], _nregs: usize, _params: &[u32]) -> Cfg {
        let n = blocks.len();
        let mut succs: Vec<Vec<u32>> = Vec::with_capacity(n);
        for b in blocks {
            let mut s = match b.insts.last() {
                Some(l) => inst_succs(&l.i),
                None => vec![],
            };
            s.sort_unstable();
            s.dedup();
            succs.push(s);
        }
        let mut npreds = vec![0; n];
        for s in &succs {
            for &t in s {
                npreds[t as usize] += 1;
            }
        }
        let mut w = Wto {
            succs: &succs,
            dfn: vec![0; n],
            num: 0,
            stack: vec![],
            comps: vec![],
        };
        let mut top = vec![];
        w.visit(0, &mut top);
        top.reverse();
        let mut c = Cfg {
            succs: vec![],
            npreds,
            pos: vec![0; n],
            comp: vec![NONE; n],
            comps: vec![],
            depth: vec![0; n],
            live_in: RefCell::new(None),
            visited: (0..n).map(|_| Cell::new(false)).collect(),
        };
        let mut k = 1;
        c.place(&top, NONE, 0, &mut k);
        c.succs = succs;
        c
    }
    fn place(&mut self, els: &[El], parent: u32, depth: u32, k: &mut u32) {
        for e in els {
            match e {
                El::V(v) => {
                    self.pos[*v as usize] = *k;
                    *k += 1;
                    self.comp[*v as usize] = parent;
                    self.depth[*v as usize] = depth;
                }
                El::C(h, body) => {
                    let id = self.comps.len() as u32;
                    self.comps.push((*h, parent, depth + 1));
                    self.pos[*h as usize] = *k;
                    *k += 1;
                    self.comp[*h as usize] = id;
                    self.depth[*h as usize] = depth + 1;
                    self.place(body, id, depth + 1, k);
                }
            }
        }
    }

    /// Update the iteration counters of the enclosing loops for a jump a -> b.
    #[inline]
    pub fn step(&self, iters: &mut Vec<u32>, a: u32, b: u32) {
        let (ca, cb) = (self.comp[a as usize], self.comp[b as usize]);
        if ca == cb {
            if cb != NONE && self.comps[cb as usize].0 == b {
                let l = iters.len();
                iters[l - 1] += 1;
            }
            return;
        }
        // lowest common component
        let (mut x, mut y) = (ca, cb);
        let dep = |c: u32| if c == NONE { 0 } else { self.comps[c as usize].2 };
        while dep(x) > dep(y) {
            x = self.comps[x as usize].1;
        }
        while dep(y) > dep(x) {
            y = self.comps[y as usize].1;
        }
        while x != y {
            x = self.comps[x as usize].1;
            y = self.comps[y as usize].1;
        }
        let common = dep(x);
        iters.truncate(common as usize);
        if x == cb && cb != NONE && self.comps[cb as usize].0 == b {
            // back to the head of an enclosing loop
            let l = iters.len();
            iters[l - 1] += 1;
        }
        while (iters.len() as u32) < dep(cb) {
            iters.push(0);
        }
    }

    /// Scheduling key of a position in this function.
    pub fn key(&self, iters: &[u32], b: u32, inst: u32, out: &mut Vec<u32>) {
        let mut chain = [0u32; 64];
        let mut n = 0;
        let mut c = self.comp[b as usize];
        while c != NONE && n < 64 {
            chain[n] = c;
            n += 1;
            c = self.comps[c as usize].1;
        }
        for k in 0..n {
            let c = chain[n - 1 - k];
            out.push(self.pos[self.comps[c as usize].0 as usize]);
            out.push(iters.get(k).copied().unwrap_or(0));
        }
        out.push(self.pos[b as usize]);
        out.push(inst);
    }

    /// Registers live at the entry of block `b` (after its phis) or before instruction `inst`.
    pub fn live(&self, f: &Func, b: u32, inst: u32) -> Vec<u64> {
        if self.live_in.borrow().is_none() {
            let r = self.compute(f);
            *self.live_in.borrow_mut() = Some(r);
        }
        let g = self.live_in.borrow();
        let li = g.as_ref().unwrap();
        let words = (f.nregs + 63) / 64;
        let mut cur = vec![0u64; words];
        self.live_out(f, b, li, &mut cur);
        let insts = &f.blocks[b as usize].insts;
        for i in insts[inst as usize..].iter().rev() {
            back(&i.i, i.dst, &mut cur);
        }
        cur
    }
    // live-in here means: live before the phis, excluding phi operands (added on edges)
    fn live_out(&self, f: &Func, b: u32, li: &[Vec<u64>], cur: &mut [u64]) {
        for &s in &self.succs[b as usize] {
            for (x, y) in cur.iter_mut().zip(&li[s as usize]) {
                *x |= *y;
            }
        }
        for &s in &self.succs[b as usize] {
            for p in &f.blocks[s as usize].phis {
                for (pb, o) in &p.inc {
                    if *pb == b {
                        use_opd(o, cur);
                    }
                }
            }
        }
    }
    fn compute(&self, f: &Func) -> Vec<Vec<u64>> {
        let words = (f.nregs + 63) / 64;
        let n = f.blocks.len();
        let mut li = vec![vec![0u64; words]; n];
        let mut order: Vec<u32> = (0..n as u32).collect();
        order.sort_by_key(|&b| std::cmp::Reverse(self.pos[b as usize]));
        let mut changed = true;
        while changed {
            changed = false;
            for &b in &order {
                let mut cur = vec![0u64; words];
                self.live_out(f, b, &li, &mut cur);
                let bl = &f.blocks[b as usize];
                for i in bl.insts.iter().rev() {
                    back(&i.i, i.dst, &mut cur);
                }
                for p in &bl.phis {
                    clear(p.dst, &mut cur);
                }
                if cur != li[b as usize] {
                    li[b as usize] = cur;
                    changed = true;
                }
            }
        }
        li
    }
}
fn use_opd(o: &Opd, cur: &mut [u64]) {
    if let Opd::R(r) = o {
        cur[*r as usize / 64] |= 1 << (*r % 64);
    }
}
fn clear(r: u32, cur: &mut [u64]) {
    if r != NONE {
        cur[r as usize / 64] &= !(1 << (r % 64));
    }
}
fn back(i: &I, dst: u32, cur: &mut [u64]) {
    clear(dst, cur);
    match i {
        I::Bin(_, _, a, b) | I::ICmp(_, _, a, b) | I::FCmp(_, _, a, b) | I::ExtractElt(_, a, b) | I::Shuffle(_, a, b, _) | I::Rmw(_, _, a, b) => {
            use_opd(a, cur);
            use_opd(b, cur);
        }
        I::Store(_, a, b) => {
            use_opd(a, cur);
            use_opd(b, cur);
        }
        I::FNeg(_, a) | I::Cast(_, _, a, _) | I::Load(_, a) | I::Extract(a, _, _) | I::Freeze(_, a) | I::Ret(_, a) | I::CondBr(a, _, _) | I::Switch(_, a, _, _) => {
            use_opd(a, cur)
        }
        I::Gep(a, _, v) => {
            use_opd(a, cur);
            for (o, _, _) in v {
                use_opd(o, cur);
            }
        }
        I::Select(a, _, b, c, _) => {
            use_opd(a, cur);
            use_opd(b, cur);
            use_opd(c, cur);
        }
        I::Insert(_, a, _, b, _) => {
            use_opd(a, cur);
            use_opd(b, cur);
        }
        I::InsertElt(_, a, b, c) | I::CmpXchg(_, a, b, c) => {
            use_opd(a, cur);
            use_opd(b, cur);
            use_opd(c, cur);
        }
        I::Call { callee, args, .. } => {
            if let Callee::Indirect(o) = callee {
                use_opd(o, cur);
            }
            for (_, o) in args {
                use_opd(o, cur);
            }
        }
        _ => {}
    }
}

enum El {
    V(u32),
    C(u32, Vec<El>),
}
struct Wto<'a> {
    succs: &'a [Vec<u32>],
    dfn: Vec<u32>,
    num: u32,
    stack: Vec<u32>,
    comps: Vec<u32>,
}
impl<'a> Wto<'a> {
    // Bourdoncle's algorithm; partitions are built in reverse.
    fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v as usize] = self.num;
        let mut head = self.num;
        let mut is_loop = false;
        let succs = self.succs;
        for &s in &succs[v as usize] {
            let d = self.dfn[s as usize];
            let min = if d == 0 { self.visit(s, part) } else { d };
            if min <= head {
                head = min;
                is_loop = true;
            }
        }
        if head == self.dfn[v as usize] {
            self.dfn[v as usize] = u32::MAX;
            let mut e = self.stack.pop().unwrap();
            if is_loop {
                while e != v {
                    self.dfn[e as usize] = 0;
                    e = self.stack.pop().unwrap();
                }
                let c = self.component(v);
                part.push(c);
            } else {
                part.push(El::V(v));
            }
        }
        head
    }
    fn component(&mut self, v: u32) -> El {
        let mut part = vec![];
        let succs = self.succs;
        for &s in &succs[v as usize] {
            if self.dfn[s as usize] == 0 {
                self.visit(s, &mut part);
            }
        }
        part.reverse();
        let _ = &self.comps;
        El::C(v, part)
    }
}
