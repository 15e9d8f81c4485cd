//! Copy-on-write symbolic memory: objects of bytes, each byte concrete, uninitialised or an 8-bit term.
use crate::ir::{GLOBAL_BASE};
use crate::term::{Pool, T};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x5000_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;
pub const SLOT: u64 = 25; // log2 of the address space of an object
pub const PAGE: usize = 256;

pub const CONC: u32 = 0;
pub const UNINIT: u32 = 1;

#[derive(Clone)]
pub struct Page {
    pub data: Vec<u8>,
    pub sym: Option<Box<[u32]>>, // CONC, UNINIT or term + 2
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub alive: bool,
    pub readonly: bool,
    pub pages: Vec<Option<Rc<Page>>>, // None: uninitialised
}

impl Obj {
    pub fn new(size: u64, align: u64) -> Obj {
        let n = (size as usize + PAGE - 1) / PAGE;
        Obj { size, align, alive: true, readonly: false, pages: vec![None; n] }
    }
    fn page_len(&self, p: usize) -> usize {
        (self.size as usize - p * PAGE).min(PAGE)
    }
    /// Byte at `o`
    #[inline]
    pub fn get(&self, o: u64) -> (u8, u32) {
        let (p, k) = (o as usize / PAGE, o as usize % PAGE);
        match &self.pages[p] {
            None => (0, UNINIT),
            Some(pg) => match &pg.sym {
                None => (pg.data[k], CONC),
                Some(s) => (pg.data[k], s[k]),
            },
        }
    }
    #[inline]
    fn page_mut(&mut self, p: usize) -> &mut Page {
        let len = self.page_len(p);
        let slot = &mut self.pages[p];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { data: vec![0; len], sym: Some(vec![UNINIT; len].into_boxed_slice()) }));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
    pub fn set(&mut self, o: u64, v: u8, s: u32) {
        let (p, k) = (o as usize / PAGE, o as usize % PAGE);
        let pg = self.page_mut(p);
        pg.data[k] = v;
        match &mut pg.sym {
            Some(y) => y[k] = s,
            None => {
                if s != CONC {
                    let mut y = vec![CONC; pg.data.len()].into_boxed_slice();
                    y[k] = s;
                    pg.sym = Some(y);
                }
            }
        }
    }
    /// Read up to 8 concrete bytes
    #[inline]
    pub fn read_conc(&self, o: u64, n: usize) -> Option<u64> {
        let (p, k) = (o as usize / PAGE, o as usize % PAGE);
        if k + n <= PAGE {
            let pg = self.pages[p].as_ref()?;
            if let Some(s) = &pg.sym {
                for x in &s[k..k + n] {
                    if *x != CONC {
                        return None;
                    }
                }
            }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&pg.data[k..k + n]);
            Some(u64::from_le_bytes(b))
        } else {
            let mut r = 0u64;
            for i in 0..n {
                let (v, s) = self.get(o + i as u64);
                if s != CONC {
                    return None;
                }
                r |= (v as u64) << (8 * i);
            }
            Some(r)
        }
    }
    #[inline]
    pub fn write_conc(&mut self, o: u64, n: usize, v: u64) {
        let (p, k) = (o as usize / PAGE, o as usize % PAGE);
        if k + n <= PAGE {
            let b = v.to_le_bytes();
            let len = self.page_len(p);
            let pg = self.page_mut(p);
            pg.data[k..k + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut pg.sym {
                for x in &mut s[k..k + n] {
                    *x = CONC;
                }
                if (k + n == len || k + n == PAGE) && s.iter().all(|x| *x == CONC) {
                    pg.sym = None;
                }
            }
        } else {
            for i in 0..n {
                self.set(o + i as u64, (v >> (8 * i)) as u8, CONC);
            }
        }
    }
    pub fn fill(&mut self, o: u64, n: u64, v: u8) {
        let mut i = o;
        let end = o + n;
        while i < end {
            let (p, k) = (i as usize / PAGE, i as usize % PAGE);
            let len = self.page_len(p);
            let m = (len - k).min((end - i) as usize);
            if k == 0 && m == len {
                self.pages[p] = Some(Rc::new(Page { data: vec![v; len], sym: None }));
            } else {
                let pg = self.page_mut(p);
                pg.data[k..k + m].fill(v);
                if let Some(s) = &mut pg.sym {
                    s[k..k + m].fill(CONC);
                }
            }
            i += m as u64;
        }
    }
    pub fn read_bytes(&self, o: u64, n: u64) -> Vec<(u8, u32)> {
        (0..n).map(|i| self.get(o + i)).collect()
    }
    pub fn write_bytes(&mut self, o: u64, b: &[(u8, u32)]) {
        assert!(o + b.len() as u64 <= self.size, "write beyond object");
        let mut i = 0;
        while i < b.len() {
            let at = o as usize + i;
            let (p, k) = (at / PAGE, at % PAGE);
            let m = (self.page_len(p) - k).min(b.len() - i);
            let any = b[i..i + m].iter().any(|x| x.1 != CONC);
            let pg = self.page_mut(p);
            if any && pg.sym.is_none() {
                pg.sym = Some(vec![CONC; pg.data.len()].into_boxed_slice());
            }
            for j in 0..m {
                pg.data[k + j] = b[i + j].0;
            }
            if let Some(s) = &mut pg.sym {
                for j in 0..m {
                    s[k + j] = b[i + j].1;
                }
                if !any && s.iter().all(|x| *x == CONC) {
                    pg.sym = None;
                }
            }
            i += m;
        }
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Table {
    chunks: Rc<Vec<Rc<Vec<Rc<Obj>>>>>,
    len: usize,
}
impl Table {
    pub fn len(&self) -> usize {
        self.len
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        if i >= self.len {
            return None;
        }
        Some(&self.chunks[i / CH][i % CH])
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        let c = Rc::make_mut(&mut self.chunks);
        let d = Rc::make_mut(&mut c[i / CH]);
        Rc::make_mut(&mut d[i % CH])
    }
    pub fn set(&mut self, i: usize, o: Rc<Obj>) {
        let c = Rc::make_mut(&mut self.chunks);
        let d = Rc::make_mut(&mut c[i / CH]);
        d[i % CH] = o;
    }
    pub fn push(&mut self, o: Obj) -> usize {
        let c = Rc::make_mut(&mut self.chunks);
        if self.len % CH == 0 {
            c.push(Rc::new(Vec::with_capacity(CH)));
        }
        let d = Rc::make_mut(&mut c[self.len / CH]);
        d.push(Rc::new(o));
        self.len += 1;
        self.len - 1
    }
    pub fn truncate(&mut self, n: usize) {
        if n >= self.len {
            return;
        }
        let c = Rc::make_mut(&mut self.chunks);
        let keep = (n + CH - 1) / CH;
        c.truncate(keep);
        if n % CH != 0 {
            Rc::make_mut(&mut c[n / CH]).truncate(n % CH);
        }
        self.len = n;
    }
    /// Indices at which two tables of the same length hold different objects
    pub fn diff(&self, o: &Table) -> Vec<usize> {
        let mut r = vec![];
        if Rc::ptr_eq(&self.chunks, &o.chunks) {
            return r;
        }
        for (ci, (a, b)) in self.chunks.iter().zip(o.chunks.iter()).enumerate() {
            if Rc::ptr_eq(a, b) {
                continue;
            }
            for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                if !Rc::ptr_eq(x, y) {
                    r.push(ci * CH + k);
                }
            }
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Space {
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Mem {
    pub globals: Table,
    pub heap: Table,
    pub stack: Table,
    pub live: u64,
}

impl Mem {
    #[inline]
    pub fn locate(a: u64) -> Option<(Space, usize, u64)> {
        let (sp, base) = if a >= STACK_BASE {
            (Space::Stack, STACK_BASE)
        } else if a >= HEAP_BASE {
            (Space::Heap, HEAP_BASE)
        } else if a >= GLOBAL_BASE {
            (Space::Global, GLOBAL_BASE)
        } else {
            return None;
        };
        let d = a - base;
        Some((sp, (d >> SLOT) as usize, d & ((1 << SLOT) - 1)))
    }
    #[inline]
    pub fn table(&self, s: Space) -> &Table {
        match s {
            Space::Global => &self.globals,
            Space::Heap => &self.heap,
            Space::Stack => &self.stack,
        }
    }
    #[inline]
    pub fn table_mut(&mut self, s: Space) -> &mut Table {
        match s {
            Space::Global => &mut self.globals,
            Space::Heap => &mut self.heap,
            Space::Stack => &mut self.stack,
        }
    }
    /// Why an access of n bytes at `a` is invalid, or where it goes
    #[inline]
    pub fn check(&self, a: u64, n: u64, write: bool) -> Result<(Space, usize, u64), &'static str> {
        let Some((s, i, o)) = Self::locate(a) else {
            return Err(if a < 4096 { "null pointer dereference" } else { "wild pointer dereference" });
        };
        let Some(ob) = self.table(s).get(i) else {
            return Err("wild pointer dereference");
        };
        if !ob.alive {
            return Err("use after free");
        }
        if o + n > ob.size {
            return Err("out-of-bounds access");
        }
        if write && ob.readonly {
            return Err("write to constant memory");
        }
        Ok((s, i, o))
    }
    pub fn byte_term(p: &mut Pool, b: (u8, u32)) -> Option<T> {
        match b.1 {
            CONC => Some(p.konst(8, b.0 as u128)),
            UNINIT => None,
            t => Some(t - 2),
        }
    }
}
