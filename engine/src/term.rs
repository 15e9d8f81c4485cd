//! Hash-consed bit-vector terms (width 1..=128), simplifier and evaluator.
use crate::fx::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, k = lo ; width = w
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u8,
    pub name: String,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    var_terms: Vec<T>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    empty: Rc<Vec<u32>>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w as u32;
        ((v << sh) as i128) >> sh
    }
}

pub fn eval_bin(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sx(x, w);
            if y >= w as u128 {
                (if a < 0 { -1i128 } else { 0 }) as u128
            } else {
                (a >> y) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

impl Pool {
    pub fn new() -> Self {
        Pool {
            nodes: Vec::new(),
            map: HashMap::default(),
            vars: Vec::new(),
            var_terms: Vec::new(),
            varsets: Vec::new(),
            empty: Rc::new(Vec::new()),
        }
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        self.varsets.push(None);
        t
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn konst(&mut self, w: u8, v: u128) -> T {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn new_var(&mut self, w: u8, name: String) -> T {
        let id = self.vars.len();
        self.vars.push(VarInfo { w, name });
        let t = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 });
        self.var_terms.push(t);
        t
    }
    /// The term of a variable
    pub fn var(&mut self, v: u32) -> T {
        self.var_terms[v as usize]
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.konst(1, 0)
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => self.konst(1, n.k ^ 1),
            Op::Xor if self.as_const(n.b) == Some(1) => n.a,
            _ => {
                let one = self.konst(1, 1);
                self.intern(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
            }
        }
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        let na = self.n(a);
        if na.w == 1 && na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1) {
            return true;
        }
        let nb = self.n(b);
        nb.w == 1 && nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1)
    }
    pub fn and1(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    fn mk(&mut self, op: Op, w: u8, a: T, b: T) -> T {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert!(na.w == nb.w, "width mismatch {:?} {} {}", op, na.w, nb.w);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let ow = if cmp { 1 } else { w };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = eval_bin(op, w, na.k, nb.k);
            return self.konst(ow, v);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let m = mask(w);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if let Some(r) = self.push_ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.konst(w, (0u128).wrapping_sub(k));
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                // (x+k1) - (x+k2)
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if kb.is_some() {
                    if let Some(r) = self.push_ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        if op != Op::AShr {
                            return self.konst(w, 0);
                        }
                    } else if op == Op::LShr {
                        let k = k as u8;
                        let e = self.extract(a, k, w - k);
                        return self.zext(e, w);
                    } else if op == Op::Shl {
                        let k = k as u8;
                        let e = self.extract(a, 0, w - k);
                        let z = self.konst(k, 0);
                        return self.concat(e, z);
                    }
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    // low mask => zext(extract)
                    let p = (k + 1) & m;
                    if k < m && (k.wrapping_add(1)).is_power_of_two() && p != 0 {
                        let bits = k.count_ones() as u8;
                        let e = self.extract(a, 0, bits);
                        return self.zext(e, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::ZExt && w > 1 {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) {
                            return a;
                        }
                        let c = self.konst(iw, k);
                        let r = self.bin(Op::And, na.a, c);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.fls();
                    }
                    // absorption: a & (a & x)
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::And, na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.tru();
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    // (x & y) | (x & !y) = x
                    if na.op == Op::And && nb.op == Op::And {
                        for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                            for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                                if p == r && self.is_not_of(q, s) {
                                    return p;
                                }
                            }
                        }
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(r, w);
                }
                // zext(x) | (y << k) with k >= width(x)  => concat (byte recombination)
                for (p, q) in [(a, b), (b, a)] {
                    let (np, nq) = (self.n(p), self.n(q));
                    if np.op == Op::ZExt && nq.op == Op::Concat {
                        let lw = self.w(nq.b);
                        let iw = self.w(np.a);
                        if self.as_const(nq.b) == Some(0) && iw <= lw {
                            let low = self.zext(np.a, lw);
                            return self.concat(nq.a, low);
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if self.is_not_of(a, b) {
                        return self.fls();
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.fls();
                            }
                            let c = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = k & mask(iw);
                            if (sx(lo, iw) as u128) & m != k {
                                return self.fls();
                            }
                            let c = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = w - lw;
                            let kh = self.konst(hw, k >> lw);
                            let kl = self.konst(lw, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            if let Some(r) = self.push_ite_const(op, a, b) {
                                return r;
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                if let Some(k) = kb {
                    if op == Op::Ult && k == 0 {
                        return self.fls();
                    }
                    if op == Op::Ule && k == m {
                        return self.tru();
                    }
                    if op == Op::Ule {
                        let c = self.konst(w, k + 1);
                        return self.bin(Op::Ult, a, c);
                    }
                    if w == 1 {
                        // a < 1
                        return self.not(a);
                    }
                    if k == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.tru();
                        }
                        let c = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if na.op == Op::Ite {
                        if let Some(r) = self.push_ite_const(op, a, b) {
                            return r;
                        }
                    }
                }
                if na.op == Op::Const {
                    let k = na.k;
                    if op == Op::Ule && k == 0 {
                        return self.tru();
                    }
                    if op == Op::Ult && k == m {
                        return self.fls();
                    }
                    // k < b  == !(b <= k) == !(b < k+1)
                    if op == Op::Ult {
                        let c = self.konst(w, k + 1);
                        let r = self.bin(Op::Ult, b, c);
                        return self.not(r);
                    } else {
                        // k <= b == !(b < k)
                        let r = self.bin(Op::Ult, b, a);
                        return self.not(r);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                if kb.is_some() {
                    if na.op == Op::ZExt {
                        let k = sx(kb.unwrap(), w);
                        if k < 0 {
                            return self.fls();
                        }
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if na.op == Op::Ite {
                        if let Some(r) = self.push_ite_const(op, a, b) {
                            return r;
                        }
                    }
                }
                if na.op == Op::Const && nb.op == Op::ZExt {
                    let k = sx(na.k, w);
                    if k < 0 {
                        return self.tru();
                    }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, ow, a, b)
    }

    // op(ite(c, k1, k2), k) => ite(c, op(k1,k), op(k2,k)) when at least one arm is constant
    fn push_ite_const(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let na = self.n(a);
        if na.op != Op::Ite {
            return None;
        }
        let c1 = self.as_const(na.b).is_some();
        let c2 = self.as_const(na.c).is_some();
        if !(c1 && c2 || ((c1 || c2) && self.ite_chain_const(a, 64))) {
            return None;
        }
        let x = self.bin(op, na.b, b);
        let y = self.bin(op, na.c, b);
        Some(self.ite(na.a, x, y))
    }
    fn ite_chain_const(&self, mut a: T, mut fuel: u32) -> bool {
        loop {
            let n = self.n(a);
            match n.op {
                Op::Const => return true,
                Op::Ite => {
                    if fuel == 0 {
                        return false;
                    }
                    fuel -= 1;
                    if self.as_const(n.b).is_some() {
                        a = n.c;
                    } else if self.as_const(n.c).is_some() {
                        a = n.b;
                    } else {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, a, ite(d, a, y)) = ite(c|d, a, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or1(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.ite(c, na.a, nb.a);
            let l = self.ite(c, na.b, nb.b);
            return self.concat(h, l);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let n = self.n(a);
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || n.w >= 16 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }

    pub fn concat(&mut self, h: T, l: T) -> T {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // concat(concat(x, e1), e2) with e1,e2 adjacent extracts
        if nh.op == Op::Concat {
            let e1 = self.n(nh.b);
            if e1.op == Op::Extract && nl.op == Op::Extract && e1.a == nl.a && e1.k == nl.k + nl.w as u128 {
                let e = self.extract(e1.a, nl.k as u8, e1.w + nl.w);
                return self.concat(nh.a, e);
            }
        }
        // zext(x) : low  => zext(x : low)
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        // high extract adjacent to full low var: concat(extract(x,k..), extract..) handled above
        self.intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: T, w: u8) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, sx(n.k, n.w) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }

    /// Sorted set of variable ids occurring in t.
    pub fn varset(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = &self.varsets[t as usize] {
            return v.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.varsets[x as usize].is_some() {
                continue;
            }
            let n = self.n(x);
            let kids: &[T] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            if !done {
                stack.push((x, true));
                for &k in kids {
                    if self.varsets[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let r = match n.op {
                Op::Const => self.empty.clone(),
                Op::Var => Rc::new(vec![n.k as u32]),
                _ => {
                    let mut acc = self.varsets[kids[0] as usize].clone().unwrap();
                    for &k in &kids[1..] {
                        let o = self.varsets[k as usize].clone().unwrap();
                        acc = union(&acc, &o);
                    }
                    acc
                }
            };
            self.varsets[x as usize] = Some(r);
        }
        self.varsets[t as usize].clone().unwrap()
    }

    pub fn eval(&self, t: T, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<T, u128>) -> u128 {
        let n0 = &self.nodes[t as usize];
        match n0.op {
            Op::Const => return n0.k,
            Op::Var => return model(n0.k as u32) & mask(n0.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let mut stack: Vec<T> = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let get = |k: T| -> Option<u128> {
                let m = &self.nodes[k as usize];
                match m.op {
                    Op::Const => Some(m.k),
                    Op::Var => Some(model(m.k as u32) & mask(m.w)),
                    _ => memo.get(&k).copied(),
                }
            };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model(n.k as u32) & mask(n.w),
                Op::Extract => match get(n.a) {
                    Some(a) => (a >> n.k) & mask(n.w),
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                },
                Op::ZExt => match get(n.a) {
                    Some(a) => a,
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                },
                Op::SExt => match get(n.a) {
                    Some(a) => (sx(a, self.nodes[n.a as usize].w) as u128) & mask(n.w),
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                },
                Op::Ite => match get(n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(c) => {
                        let k = if c == 1 { n.b } else { n.c };
                        match get(k) {
                            Some(v) => v,
                            None => {
                                stack.push(k);
                                continue;
                            }
                        }
                    }
                },
                Op::Concat => match (get(n.a), get(n.b)) {
                    (Some(a), Some(b)) => (a << self.nodes[n.b as usize].w) | b,
                    (None, _) => {
                        stack.push(n.a);
                        continue;
                    }
                    (_, None) => {
                        stack.push(n.b);
                        continue;
                    }
                },
                op => match (get(n.a), get(n.b)) {
                    (Some(a), Some(b)) => eval_bin(op, self.nodes[n.a as usize].w, a, b),
                    (None, _) => {
                        stack.push(n.a);
                        continue;
                    }
                    (_, None) => {
                        stack.push(n.b);
                        continue;
                    }
                },
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&t]
    }
}

pub fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            r.push(a[i]);
            i += 1;
        } else if b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    if r.len() == a.len() {
        return a.clone();
    }
    if r.len() == b.len() {
        return b.clone();
    }
    Rc::new(r)
}
