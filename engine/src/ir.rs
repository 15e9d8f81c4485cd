//! Parser for the textual LLVM IR emitted by rustc (the subset rustc and std use).
//! Function bodies are parsed on first use.
use std::cell::RefCell;
use crate::fx::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool), // packed
    Vec(u64, Rc<Ty>),
    Meta,
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Other => 0,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(b) = **t {
                    ((n * b as u64) + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v.iter() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, false) => v.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Struct(_, true) => 1,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => self.size().clamp(1, 16),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(v, _) => v[i].clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(v, _) => v.len(),
            _ => 0,
        }
    }
    /// Bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}
pub fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// Constants (symbols already resolved to addresses)
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Zero,
    Agg(Rc<Vec<K>>),
    Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(Rc<K>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit, // same bits
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(u8, Ty, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>), // base, constant offset, (index, index bits, scale)
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64),
    Select(Opd, Ty, Opd, Opd, bool),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, noreturn: bool, normal: u32 },
    Extract(Opd, Vec<u32>, Ty), // type of the aggregate
    Insert(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElt(Ty, Opd, Opd),
    InsertElt(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Freeze(Ty, Opd),
    Rmw(u8, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Opd),
    RetVoid,
    Unreachable,
    LandingPad,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub dbg: u32,
    pub i: I,
}
pub const NONE: u32 = u32::MAX;

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub dbg: u32,
    pub reg_bits: Vec<u32>,
    pub cfg: crate::cfg::Cfg,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub lines: (usize, usize), // of the definition; (0,0) for a declaration
    pub head: usize,
    pub body: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    lines: Vec<(usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    types: HashMap<String, Ty>,
    meta: HashMap<u32, usize>,
    noreturn_groups: std::collections::HashSet<u32>,
}

pub const GLOBAL_BASE: u64 = 0x4A00_0000_0000;
pub const FUNC_BASE: u64 = 0x4000_0000_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "IR parse: expected {:?} at {:?} in {:?}",
                c as char,
                String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]),
                String::from_utf8_lossy(self.s)
            );
        }
    }
    fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.i.min(self.s.len())..]).unwrap()
    }
    fn is_wordc(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && Self::is_wordc(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// A name after % or @ (possibly quoted)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let mut j = self.i;
            while j < self.s.len() && Self::is_wordc(self.s[j]) {
                j += 1;
            }
            let r = String::from_utf8_lossy(&self.s[self.i..j]).into_owned();
            self.i = j;
            r
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let v = self.ty_list(b'}');
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" => Ty::Meta,
                    _ => {
                        if let Some(r) = w.strip_prefix('i') {
                            if let Ok(n) = r.parse::<u32>() {
                                return Ty::Int(n);
                            }
                        }
                        Ty::Other
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(b',') {
                continue;
            }
            self.expect(end);
            return v;
        }
    }

    /// A constant of type `t`
    fn konst(&mut self, t: &Ty) -> K {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                K::Int(self.m.sym_addr(&n) as u128)
            }
            b'[' | b'{' => {
                self.i += 1;
                let v = self.konst_list(if c == b'[' { b']' } else { b'}' });
                K::Agg(Rc::new(v))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.konst_list(b'}');
                    self.expect(b'>');
                    K::Agg(Rc::new(v))
                } else {
                    let v = self.konst_list(b'>');
                    K::Agg(Rc::new(v))
                }
            }
            _ => {
                if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
                    self.i += 2;
                    let mut v = vec![];
                    while self.s[self.i] != b'"' {
                        if self.s[self.i] == b'\\' {
                            if self.s[self.i + 1] == b'\\' {
                                v.push(b'\\');
                                self.i += 2;
                                continue;
                            }
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            if let Ok(x) = u8::from_str_radix(h, 16) {
                                v.push(x);
                                self.i += 3;
                                continue;
                            }
                        }
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                    self.i += 1;
                    return K::Bytes(Rc::new(v));
                }
                let w = self.word();
                match w {
                    "true" => K::Int(1),
                    "false" | "null" | "none" => K::Int(0),
                    "undef" | "poison" => K::Undef,
                    "zeroinitializer" => K::Zero,
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let k = self.konst(&et);
                        self.expect(b')');
                        K::Agg(Rc::new(vec![k; t.count()]))
                    }
                    "getelementptr" => {
                        while !self.s[self.i..].starts_with(b"(") {
                            if self.peek() == b'(' {
                                break;
                            }
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(');
                        let st = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let base = self.konst(&bt);
                        let mut off = 0i128;
                        let mut first = true;
                        let mut cur = st;
                        while self.eat(b',') {
                            self.eat_word("inrange");
                            let it = self.ty();
                            let ix = match self.konst(&it) {
                                K::Int(v) => sext(v, it.bits()),
                                _ => 0,
                            };
                            if first {
                                off += ix * cur.size() as i128;
                                first = false;
                            } else {
                                off += cur.field_off(ix as usize) as i128;
                                if !matches!(cur, Ty::Struct(..)) {
                                    off = off - cur.field_off(ix as usize) as i128
                                        + ix * cur.field(0).size() as i128;
                                }
                                cur = cur.field(ix as usize);
                            }
                        }
                        self.expect(b')');
                        match base {
                            K::Int(b) => K::Int((b as u64).wrapping_add(off as u64) as u128),
                            _ => K::Undef,
                        }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        self.expect(b'(');
                        let t1 = self.ty();
                        let k = self.konst(&t1);
                        assert!(self.eat_word("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        match k {
                            K::Int(v) => K::Int(v & crate::term::mask(t2.bits().min(128) as u8)),
                            k => k,
                        }
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty();
                        let a = self.konst(&t1);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.konst(&t2);
                        self.expect(b')');
                        match (a, b) {
                            (K::Int(a), K::Int(b)) => {
                                let v = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    "xor" => a ^ b,
                                    "and" => a & b,
                                    _ => a | b,
                                };
                                K::Int(v & crate::term::mask(t1.bits() as u8))
                            }
                            _ => K::Undef,
                        }
                    }
                    _ => {
                        // number
                        match t {
                            Ty::Int(n) => {
                                let v: u128 = if let Some(h) = w.strip_prefix("u0x") {
                                    u128::from_str_radix(h, 16).unwrap()
                                } else if let Some(r) = w.strip_prefix('-') {
                                    (r.parse::<u128>().unwrap_or_else(|_| panic!("const {:?} in {:?}", w, std::str::from_utf8(self.s)))).wrapping_neg()
                                } else {
                                    w.parse::<u128>().unwrap_or_else(|_| panic!("const {:?} of {:?} in {:?}", w, t, std::str::from_utf8(self.s)))
                                };
                                K::Int(v & crate::term::mask(*n as u8))
                            }
                            Ty::F32 | Ty::F64 => {
                                // the number may contain '+', which word() does not cover
                                let mut txt = w.to_string();
                                while self.i < self.s.len() && (self.s[self.i] == b'+' || Self::is_wordc(self.s[self.i])) {
                                    txt.push(self.s[self.i] as char);
                                    self.i += 1;
                                }
                                if let Some(h) = txt.strip_prefix("f0x") {
                                    // the bits of the type itself
                                    return K::Int(u128::from_str_radix(h, 16).unwrap());
                                }
                                let d: f64 = if let Some(h) = txt.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                                } else {
                                    match txt.parse::<f64>() {
                                        Ok(d) => d,
                                        Err(_) => panic!("float const {:?} in {:?}", txt, std::str::from_utf8(self.s)),
                                    }
                                };
                                if *t == Ty::F32 {
                                    K::Int((d as f32).to_bits() as u128)
                                } else {
                                    K::Int(d.to_bits() as u128)
                                }
                            }
                            _ => panic!("IR constant {:?} of type {:?} in {:?}", w, t, std::str::from_utf8(self.s)),
                        }
                    }
                }
            }
        }
    }
    fn konst_list(&mut self, end: u8) -> Vec<K> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.eat(b',') {
                continue;
            }
            self.expect(end);
            return v;
        }
    }
}

fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gidx.get(n) {
            return GLOBAL_BASE + ((g as u64) << crate::mem::SLOT);
        }
        if let Some(&f) = self.fidx.get(n) {
            return FUNC_BASE + (f as u64) * 16;
        }
        // unknown symbol (alias or extern weak)
        0
    }
    pub fn line(&self, i: usize) -> &str {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read IR");
        let mut lines = Vec::new();
        let mut st = 0;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        if st < text.len() {
            lines.push((st, text.len()));
        }
        let mut m = Module {
            text,
            lines,
            funcs: vec![],
            fidx: HashMap::default(),
            globals: vec![],
            gidx: HashMap::default(),
            types: HashMap::default(),
            meta: HashMap::default(),
            noreturn_groups: Default::default(),
        };
        // pass 1: index
        let n = m.lines.len();
        let mut i = 0;
        let mut glines = vec![];
        let mut tlines = vec![];
        while i < n {
            let (a, b) = m.lines[i];
            let l = &m.text[a..b];
            let c = l.as_bytes().first().copied().unwrap_or(0);
            match c {
                b'd' if l.starts_with("define") || l.starts_with("declare") => {
                    let at = l.find('@').unwrap();
                    let name = {
                        let mut p = P::new(&m, l);
                        p.i = at + 1;
                        p.name()
                    };
                    let st = i;
                    let mut en = 0;
                    if l.starts_with("define") {
                        while m.text.as_bytes()[m.lines[i].0] != b'}' || m.lines[i].0 == m.lines[i].1 {
                            i += 1;
                            while m.lines[i].0 == m.lines[i].1 {
                                i += 1;
                            }
                        }
                        en = i;
                    }
                    let id = m.funcs.len();
                    m.fidx.insert(name.clone(), id);
                    m.funcs.push(FuncDecl {
                        name: name.as_str().into(),
                        lines: if en == 0 { (0, 0) } else { (st, en) },
                        head: st,
                        body: RefCell::new(None),
                    });
                }
                b'@' => {
                    let name = {
                        let mut p = P::new(&m, l);
                        p.i = 1;
                        p.name()
                    };
                    let id = m.globals.len();
                    m.gidx.insert(name.clone(), id);
                    m.globals.push(Global { name, ty: Ty::Void, init: None, constant: false });
                    glines.push(i);
                }
                b'%' => tlines.push(i),
                b'!' => {
                    let num: String = l[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(k) = num.parse::<u32>() {
                        m.meta.insert(k, i);
                    }
                }
                b'a' if l.starts_with("attributes #") => {
                    let num: String = l[12..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if l.contains(" noreturn ") {
                        m.noreturn_groups.insert(num.parse().unwrap());
                    }
                }
                _ => {}
            }
            i += 1;
        }
        for i in tlines {
            let l = m.line(i).to_string();
            let (name, t) = {
                let mut p = P::new(&m, &l);
                p.i = 1;
                let name = p.name();
                p.expect(b'=');
                assert!(p.eat_word("type"));
                (name, p.ty())
            };
            m.types.insert(name, t);
        }
        for (g, i) in glines.into_iter().enumerate() {
            let l = m.line(i).to_string();
            let (ty, init, constant) = {
                let mut p = P::new(&m, &l);
                p.i = 1;
                p.name();
                p.expect(b'=');
                let mut constant = false;
                let mut external = false;
                let mut found = false;
                loop {
                    let c = p.peek();
                    if c == b'(' {
                        p.skip_parens();
                        continue;
                    }
                    let w = p.word();
                    match w {
                        "constant" => {
                            constant = true;
                            found = true;
                            break;
                        }
                        "global" => {
                            found = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "alias" | "ifunc" | "" => break,
                        _ => {}
                    }
                }
                if !found {
                    (Ty::Void, None, false)
                } else {
                    let ty = p.ty();
                    let init = if external { None } else { Some(p.konst(&ty)) };
                    (ty, init, constant)
                }
            };
            m.globals[g].ty = ty;
            m.globals[g].init = init;
            m.globals[g].constant = constant;
        }
        m
    }

    pub fn func(&self, id: usize) -> Option<Rc<Func>> {
        let d = &self.funcs[id];
        if d.lines == (0, 0) {
            return None;
        }
        if let Some(f) = &*d.body.borrow() {
            return Some(f.clone());
        }
        let f = Rc::new(self.parse_func(id));
        *d.body.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn parse_func(&self, id: usize) -> Func {
        let d = &self.funcs[id];
        let (st, en) = d.lines;
        let head = self.line(st);
        let mut regs: HashMap<String, u32> = HashMap::default();
        let mut blocks_idx: HashMap<String, u32> = HashMap::default();
        // parameters
        let mut params = vec![];
        let mut ptys: Vec<Ty> = vec![];
        let mut implicit = 0u32;
        {
            let mut p = P::new(self, head);
            p.i = head.find('@').unwrap() + 1;
            p.name();
            p.expect(b'(');
            if !p.eat(b')') {
                loop {
                    if p.s[p.i..].starts_with(b"...") || p.peek() == b'.' {
                        p.i += 3;
                        p.expect(b')');
                        break;
                    }
                    ptys.push(p.ty());
                    p.skip_attrs();
                    let name = if p.eat(b'%') {
                        p.name()
                    } else {
                        let s = implicit.to_string();
                        s
                    };
                    if name == implicit.to_string() {
                        implicit += 1;
                    }
                    let r = regs.len() as u32;
                    regs.insert(name, r);
                    params.push(r);
                    if p.eat(b',') {
                        continue;
                    }
                    p.expect(b')');
                    break;
                }
            }
        }
        let dbg = find_dbg(head);
        // labels
        let mut nb = 0u32;
        let mut label_at: Vec<(usize, u32)> = vec![];
        for i in st + 1..en {
            let l = self.line(i);
            let c = l.as_bytes().first().copied().unwrap_or(b' ');
            if c == b' ' || c == b';' || c == b'\t' || l.is_empty() || c == b']' {
                if nb == 0 && c == b' ' {
                    // unnamed entry block
                    blocks_idx.insert(implicit.to_string(), 0);
                    label_at.push((i, 0));
                    nb = 1;
                }
                continue;
            }
            // label line
            let mut p = P::new(self, l);
            let name = p.name();
            blocks_idx.insert(name, nb);
            label_at.push((i, nb));
            nb += 1;
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], insts: vec![] }).collect();
        let mut fp = FP { m: self, regs, blocks: blocks_idx };
        let mut cur = 0usize;
        let mut li = 0;
        let mut i = st + 1;
        while i < en {
            if li < label_at.len() && label_at[li].0 == i {
                cur = label_at[li].1 as usize;
                li += 1;
                let l = self.line(i);
                if !l.starts_with(' ') {
                    i += 1;
                    continue;
                }
            }
            let l = self.line(i);
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                i += 1;
                continue;
            }
            let mut full: std::borrow::Cow<str> = t.into();
            if t.starts_with("switch ") {
                let mut s = t.to_string();
                while !self.line(i).trim_start().starts_with(']') && !s.contains(']') {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.line(i).trim());
                }
                full = s.into();
            } else {
                while i + 1 < en && self.line(i + 1).starts_with("          ") {
                    // continuation lines (invoke ... to label, landingpad clauses)
                    i += 1;
                    let mut s = full.into_owned();
                    s.push(' ');
                    s.push_str(self.line(i).trim());
                    full = s.into();
                }
            }
            fp.inst(&full, &mut blocks[cur]);
            i += 1;
        }
        let nregs = fp.regs.len();
        let cfg = crate::cfg::Cfg::build(&blocks, nregs, &params);
        let mut reg_bits = vec![0u32; nregs];
        for (k, &r) in params.iter().enumerate() {
            reg_bits[r as usize] = ptys[k].bits();
        }
        for b in &blocks {
            for p in &b.phis {
                reg_bits[p.dst as usize] = p.ty.bits();
            }
            for i in &b.insts {
                if i.dst == NONE {
                    continue;
                }
                reg_bits[i.dst as usize] = match &i.i {
                    I::Bin(_, t, _, _) | I::FNeg(t, _) | I::Load(t, _) | I::Freeze(t, _) | I::Rmw(_, t, _, _) => t.bits(),
                    I::Select(_, t, _, _, _) => t.bits(),
                    I::ICmp(_, t, _, _) | I::FCmp(_, t, _, _) => {
                        if t.is_scalar() {
                            1
                        } else {
                            0
                        }
                    }
                    I::Cast(_, _, _, t) => t.bits(),
                    I::Gep(..) | I::Alloca(_) => 64,
                    I::Call { ret, .. } => ret.bits(),
                    I::Extract(_, ix, t) => {
                        let mut t = t.clone();
                        for i in ix {
                            t = t.field(*i as usize);
                        }
                        t.bits()
                    }
                    I::ExtractElt(t, _, _) => t.field(0).bits(),
                    _ => 0,
                };
            }
        }
        Func { name: d.name.clone(), id, params, blocks, nregs, dbg, reg_bits, cfg }
    }

    fn meta_line(&self, k: u32) -> Option<&str> {
        self.meta.get(&k).map(|&i| self.line(i))
    }
    /// The innermost location and the chain of (function, file, line) it was inlined through.
    pub fn loc(&self, mut k: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut fuel = 64;
        while k != 0 && fuel > 0 {
            fuel -= 1;
            let Some(l) = self.meta_line(k) else { break };
            if !l.contains("!DILocation(") {
                break;
            }
            let line = field_num(l, "line: ").unwrap_or(0);
            let scope = field_ref(l, "scope: ").unwrap_or(0);
            let (f, file) = self.scope(scope);
            out.push((f, file, line));
            k = field_ref(l, "inlinedAt: ").unwrap_or(0);
        }
        out
    }
    /// Function and file of a DISubprogram / lexical block
    pub fn scope(&self, mut k: u32) -> (String, String) {
        let mut fuel = 64;
        while fuel > 0 {
            fuel -= 1;
            let Some(l) = self.meta_line(k) else { break };
            if l.contains("!DISubprogram(") {
                let mut name = field_str(l, "name: ").unwrap_or_default();
                if let Some(ln) = field_str(l, "linkageName: ") {
                    let _ = ln;
                }
                // qualify with the namespace
                let mut sc = field_ref(l, "scope: ").unwrap_or(0);
                let mut f2 = 32;
                while f2 > 0 {
                    f2 -= 1;
                    let Some(s) = self.meta_line(sc) else { break };
                    let n = field_str(s, "name: ").unwrap_or_default();
                    if s.contains("!DINamespace(") || s.contains("!DICompositeType(") {
                        name = format!("{}::{}", n, name);
                    } else {
                        break;
                    }
                    sc = field_ref(s, "scope: ").unwrap_or(0);
                }
                let file = field_ref(l, "file: ").unwrap_or(0);
                return (name, self.file(file));
            }
            match field_ref(l, "scope: ") {
                Some(s) => k = s,
                None => break,
            }
        }
        (String::new(), String::new())
    }
    fn file(&self, k: u32) -> String {
        match self.meta_line(k) {
            Some(l) => {
                let f = field_str(l, "filename: ").unwrap_or_default();
                let d = field_str(l, "directory: ").unwrap_or_default();
                if f.starts_with('/') || d.is_empty() {
                    f
                } else {
                    format!("{}/{}", d, f)
                }
            }
            None => String::new(),
        }
    }
    /// Does every return-reaching path of the callee not exist? (declared noreturn)
    pub fn is_noreturn(&self, id: usize) -> bool {
        let d = &self.funcs[id];
        let head = self.line(d.head);
        head.split([' ', ',']).filter_map(|w| w.strip_prefix('#')).filter_map(|g| g.parse::<u32>().ok()).any(|g| self.group_noreturn(g))
    }
    pub fn group_noreturn(&self, g: u32) -> bool {
        self.noreturn_groups.contains(&g)
    }
}

fn field_ref(l: &str, f: &str) -> Option<u32> {
    let mut from = 0;
    while let Some(i) = l[from..].find(f) {
        let at = from + i;
        let ok = at == 0 || !(l.as_bytes()[at - 1].is_ascii_alphanumeric());
        if ok {
            let r = &l[at + f.len()..];
            if let Some(r) = r.strip_prefix('!') {
                let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                return n.parse().ok();
            }
            return None;
        }
        from = at + f.len();
    }
    None
}
fn field_num(l: &str, f: &str) -> Option<u32> {
    let i = l.find(f)?;
    let n: String = l[i + f.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
    n.parse().ok()
}
fn field_str(l: &str, f: &str) -> Option<String> {
    let mut from = 0;
    while let Some(i) = l[from..].find(f) {
        let at = from + i;
        let ok = at == 0 || !(l.as_bytes()[at - 1].is_ascii_alphanumeric());
        if ok {
            let r = &l[at + f.len()..];
            let r = r.strip_prefix('"')?;
            return Some(r.split('"').next().unwrap_or("").to_string());
        }
        from = at + f.len();
    }
    None
}
fn find_dbg(l: &str) -> u32 {
    match l.rfind("!dbg !") {
        Some(i) => {
            let n: String = l[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            n.parse().unwrap_or(0)
        }
        None => 0,
    }
}

impl<'a> P<'a> {
    /// Skip parameter/return attributes such as `noundef align 8 dereferenceable(24) range(i8 0, 3)`.
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // "attr"="value"
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_lowercase() {
                return;
            }
            let known = [
                "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "align",
                "dereferenceable", "dereferenceable_or_null", "zeroext", "signext", "inreg", "range", "captures",
                "sret", "byval", "returned", "immarg", "nofree", "initializes", "allocptr", "allocalign", "writable",
                "dead_on_unwind", "dead_on_return", "nest", "swiftself", "nofpclass", "noext", "allocsize", "nosync",
            ];
            if !known.contains(&w) {
                return;
            }
            self.i += w.len();
            if w == "align" && self.peek() != b'(' {
                self.word();
            } else if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
}

struct FP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::R(self.reg(n));
        }
        let k = p.konst(t);
        match (&k, t) {
            (K::Int(v), t) if t.bits() <= 64 && t.is_scalar() => Opd::C(*v as u64),
            (K::Zero, t) if t.is_scalar() => Opd::C(0),
            _ => Opd::K(Rc::new(k)),
        }
    }
    fn tyopd(&mut self, p: &mut P) -> (Ty, Opd) {
        let t = p.ty();
        let o = self.opd(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_word("label"));
        p.expect(b'%');
        let n = p.name();
        *self.blocks.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }

    fn inst(&mut self, l: &str, b: &mut Block) {
        let m = self.m;
        let mut p = P::new(m, l);
        let mut dst = NONE;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = self.reg(n);
            p.expect(b'=');
        }
        let dbg = find_dbg(l);
        let mut op = p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                while matches!(
                    p.peek_word(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                ) {
                    p.word();
                }
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let y = self.opd(&mut p, &t);
                I::Bin(o, t, x, y)
            }
            "fneg" => {
                let (t, x) = self.tyopd(&mut p);
                I::FNeg(t, x)
            }
            "icmp" => {
                p.eat_word("samesign");
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {}", l),
                };
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let y = self.opd(&mut p, &t);
                I::ICmp(pr, t, x, y)
            }
            "fcmp" => {
                let mut w = p.word();
                while matches!(w, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    w = p.word();
                }
                // bit0: lt, bit1: eq, bit2: gt, bit3: unordered
                let c = match w {
                    "false" => 0,
                    "oeq" => 2,
                    "ogt" => 4,
                    "oge" => 6,
                    "olt" => 1,
                    "ole" => 3,
                    "one" => 5,
                    "ord" => 7,
                    "ueq" => 10,
                    "ugt" => 12,
                    "uge" => 14,
                    "ult" => 9,
                    "ule" => 11,
                    "une" => 13,
                    "uno" => 8,
                    _ => 15,
                };
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let y = self.opd(&mut p, &t);
                I::FCmp(c, t, x, y)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptrunc" | "fpext"
            | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoaddr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf") {
                    p.word();
                }
                let (t, x) = self.tyopd(&mut p);
                assert!(p.eat_word("to"));
                let t2 = p.ty();
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" | "addrspacecast" => Cast::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (a, b) = (t.bits(), t2.bits());
                        if a == b {
                            Cast::Bit
                        } else if a > b {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    _ => Cast::SiToFp,
                };
                I::Cast(c, t, x, t2)
            }
            "getelementptr" => {
                loop {
                    let w = p.peek_word();
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        p.word();
                    } else if w == "inrange" {
                        p.word();
                        p.ws();
                        p.skip_parens();
                    } else {
                        break;
                    }
                }
                let st = p.ty();
                p.expect(b',');
                let (bt, base) = self.tyopd(&mut p);
                if bt != Ty::Ptr {
                    I::Unsupported(l.to_string())
                } else {
                    let mut off = 0u64;
                    let mut dynv = vec![];
                    let mut cur = st;
                    let mut first = true;
                    while p.eat(b',') {
                        if p.peek() == b'!' {
                            break;
                        }
                        let (it, o) = self.tyopd(&mut p);
                        let scale = if first { cur.size() } else { cur.field(0).size() };
                        match o {
                            Opd::C(v) => {
                                let ix = sext(v as u128, it.bits());
                                if first {
                                    off = off.wrapping_add((ix as u64).wrapping_mul(scale));
                                } else if matches!(cur, Ty::Struct(..)) {
                                    off = off.wrapping_add(cur.field_off(ix as usize));
                                } else {
                                    off = off.wrapping_add((ix as u64).wrapping_mul(scale));
                                }
                                if !first {
                                    cur = cur.field(ix as usize);
                                }
                            }
                            o => {
                                dynv.push((o, it.bits(), scale));
                                if !first {
                                    cur = cur.field(0);
                                }
                            }
                        }
                        first = false;
                    }
                    I::Gep(base, off, dynv)
                }
            }
            "load" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let t = p.ty();
                p.expect(b',');
                let (_, a) = self.tyopd(&mut p);
                I::Load(t, a)
            }
            "store" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let (t, v) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, a) = self.tyopd(&mut p);
                I::Store(t, v, a)
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = p.ty();
                let mut n = 1;
                if p.eat(b',') && p.peek() == b'i' {
                    let (_, o) = self.tyopd(&mut p);
                    if let Opd::C(v) = o {
                        n = v;
                    }
                }
                I::Alloca(t.size() * n)
            }
            "select" => {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let (ct, c) = self.tyopd(&mut p);
                p.expect(b',');
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, y) = self.tyopd(&mut p);
                I::Select(c, t, x, y, matches!(ct, Ty::Vec(..)))
            }
            "call" | "invoke" => {
                // fast-math flags, calling convention, return attributes
                loop {
                    let w = p.peek_word();
                    if matches!(
                        w,
                        "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "ninf" | "nsz" | "tailcc" | "preserve_mostcc" | "preserve_nonecc"
                    ) {
                        p.word();
                    } else {
                        let before = p.i;
                        p.skip_attrs();
                        p.ws();
                        let _ = before;
                        if p.peek_word() == w {
                            break;
                        }
                    }
                }
                let ret = p.ty();
                // function type for varargs: `i64 (i64, ...)`
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let c = p.peek();
                let callee = if c == b'@' {
                    p.i += 1;
                    let n = p.name();
                    Callee::Direct(n.as_str().into())
                } else if c == b'%' {
                    p.i += 1;
                    let n = p.name();
                    Callee::Indirect(Opd::R(self.reg(n)))
                } else if p.eat_word("asm") {
                    p.i = p.s.len();
                    b.insts.push(Inst { dst, dbg, i: I::Unsupported(l.to_string()) });
                    return;
                } else {
                    let o = self.opd(&mut p, &Ty::Ptr);
                    Callee::Indirect(o)
                };
                p.expect(b'(');
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = p.ty();
                        p.skip_attrs();
                        if t == Ty::Meta {
                            // metadata operand: skip to , or )
                            let mut d = 0;
                            while p.i < p.s.len() {
                                let c = p.s[p.i];
                                if c == b'(' {
                                    d += 1;
                                }
                                if d == 0 && (c == b',' || c == b')') {
                                    break;
                                }
                                if c == b')' {
                                    d -= 1;
                                }
                                p.i += 1;
                            }
                            args.push((t, Opd::C(0)));
                        } else {
                            let o = self.opd(&mut p, &t);
                            args.push((t, o));
                        }
                        if p.eat(b',') {
                            continue;
                        }
                        p.expect(b')');
                        break;
                    }
                }
                let mut normal = NONE;
                let rest = p.rest();
                let mut noreturn = false;
                for w in rest.split([' ', ',']) {
                    if let Some(g) = w.strip_prefix('#') {
                        if let Ok(g) = g.parse::<u32>() {
                            noreturn |= m.group_noreturn(g);
                        }
                    }
                }
                if op == "invoke" {
                    let at = rest.find(" to label ").or_else(|| rest.find("to label ")).expect("invoke");
                    let mut q = P::new(m, &rest[at..]);
                    assert!(q.eat_word("to"));
                    normal = self.label(&mut q);
                }
                I::Call { ret, callee, args, noreturn, normal }
            }
            "extractvalue" => {
                let (t, x) = self.tyopd(&mut p);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::Extract(x, ix, t)
            }
            "insertvalue" => {
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let (t2, y) = self.tyopd(&mut p);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::Insert(t, x, t2, y, ix)
            }
            "extractelement" => {
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, y) = self.tyopd(&mut p);
                I::ExtractElt(t, x, y)
            }
            "insertelement" => {
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, y) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, z) = self.tyopd(&mut p);
                I::InsertElt(t, x, y, z)
            }
            "shufflevector" => {
                let (t, x) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, y) = self.tyopd(&mut p);
                p.expect(b',');
                let mt = p.ty();
                let k = p.konst(&mt);
                let n = mt.count();
                let mask = match k {
                    K::Agg(v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(v) => *v as i32,
                            _ => -1,
                        })
                        .collect(),
                    K::Undef => vec![-1; n],
                    _ => vec![0; n],
                };
                I::Shuffle(t, x, y, mask)
            }
            "freeze" => {
                let (t, x) = self.tyopd(&mut p);
                I::Freeze(t, x)
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let w = p.word();
                let k = match w {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => 99,
                };
                let (_, a) = self.tyopd(&mut p);
                p.expect(b',');
                let (t, v) = self.tyopd(&mut p);
                if k == 99 {
                    I::Unsupported(l.to_string())
                } else {
                    I::Rmw(k, t, a, v)
                }
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let (_, a) = self.tyopd(&mut p);
                p.expect(b',');
                let (t, c) = self.tyopd(&mut p);
                p.expect(b',');
                let (_, n) = self.tyopd(&mut p);
                I::CmpXchg(t, a, c, n)
            }
            "fence" => I::Fence,
            "br" => {
                if p.peek_word() == "label" {
                    I::Br(self.label(&mut p))
                } else {
                    let (_, c) = self.tyopd(&mut p);
                    p.expect(b',');
                    let x = self.label(&mut p);
                    p.expect(b',');
                    let y = self.label(&mut p);
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut p);
                p.expect(b',');
                let d = self.label(&mut p);
                p.expect(b'[');
                let mut cs = vec![];
                while !p.eat(b']') {
                    let ct = p.ty();
                    let k = p.konst(&ct);
                    p.expect(b',');
                    let l = self.label(&mut p);
                    if let K::Int(v) = k {
                        cs.push((v, l));
                    }
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    I::RetVoid
                } else {
                    let o = self.opd(&mut p, &t);
                    I::Ret(t, o)
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" => I::LandingPad,
            "phi" => {
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let o = self.opd(&mut p, &t);
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    let bl = *self.blocks.get(&n).unwrap_or_else(|| panic!("phi label {}", n));
                    p.expect(b']');
                    inc.push((bl, o));
                    if p.peek() == b',' {
                        p.i += 1;
                        if p.peek() == b'[' {
                            continue;
                        }
                    }
                    break;
                }
                b.phis.push(Phi { dst, ty: t, inc });
                return;
            }
            _ => I::Unsupported(l.to_string()),
        };
        b.insts.push(Inst { dst, dbg, i });
    }
}
