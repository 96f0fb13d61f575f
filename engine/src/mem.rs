//! Paged copy-on-write objects holding concrete and symbolic bytes.
use crate::expr::Id;
use std::rc::Rc;

pub const PG: usize = 256;
pub const NOSYM: Id = u32::MAX;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PG],
    pub sym: Option<Box<[Id; PG]>>,
    pub nsym: u32,
}
impl Page {
    fn zero() -> Page {
        Page { data: [0; PG], sym: None, nsym: 0 }
    }
    #[inline]
    fn set_c(&mut self, o: usize, v: u8) {
        self.data[o] = v;
        if self.nsym > 0 {
            let s = self.sym.as_mut().unwrap();
            if s[o] != NOSYM {
                s[o] = NOSYM;
                self.nsym -= 1;
                if self.nsym == 0 {
                    self.sym = None;
                }
            }
        }
    }
    fn set_s(&mut self, o: usize, e: Id) {
        if self.sym.is_none() {
            self.sym = Some(Box::new([NOSYM; PG]));
        }
        let s = self.sym.as_mut().unwrap();
        if s[o] == NOSYM {
            self.nsym += 1;
        }
        s[o] = e;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub pages: Vec<Option<Rc<Page>>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    C(u8),
    S(Id),
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        let n = (size as usize + PG - 1) / PG;
        Obj { size, kind, pages: vec![None; n] }
    }
    #[inline]
    fn page_mut(&mut self, p: usize) -> &mut Page {
        let s = &mut self.pages[p];
        if s.is_none() {
            *s = Some(Rc::new(Page::zero()));
        }
        Rc::make_mut(s.as_mut().unwrap())
    }
    #[inline]
    pub fn get(&self, off: u64) -> B {
        let (p, o) = (off as usize / PG, off as usize % PG);
        match &self.pages[p] {
            None => B::C(0),
            Some(pg) => {
                if pg.nsym > 0 {
                    let s = pg.sym.as_ref().unwrap()[o];
                    if s != NOSYM {
                        return B::S(s);
                    }
                }
                B::C(pg.data[o])
            }
        }
    }
    #[inline]
    pub fn set(&mut self, off: u64, b: B) {
        let (p, o) = (off as usize / PG, off as usize % PG);
        match b {
            B::C(v) => {
                if v == 0 && self.pages[p].is_none() {
                    return;
                }
                self.page_mut(p).set_c(o, v)
            }
            B::S(e) => self.page_mut(p).set_s(o, e),
        }
    }
    /// Concrete little-endian read of n<=16 bytes; None if any byte is symbolic.
    #[inline]
    pub fn read_c(&self, off: u64, n: usize) -> Option<u128> {
        let (p, o) = (off as usize / PG, off as usize % PG);
        if o + n <= PG {
            match &self.pages[p] {
                None => Some(0),
                Some(pg) => {
                    if pg.nsym > 0 {
                        let s = pg.sym.as_ref().unwrap();
                        if s[o..o + n].iter().any(|x| *x != NOSYM) {
                            return None;
                        }
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&pg.data[o..o + n]);
                    Some(u128::from_le_bytes(b))
                }
            }
        } else {
            let mut v = 0u128;
            for i in 0..n {
                match self.get(off + i as u64) {
                    B::C(c) => v |= (c as u128) << (8 * i),
                    _ => return None,
                }
            }
            Some(v)
        }
    }
    #[inline]
    pub fn write_c(&mut self, off: u64, n: usize, v: u128) {
        let (p, o) = (off as usize / PG, off as usize % PG);
        if o + n <= PG {
            if v == 0 && self.pages[p].is_none() {
                return;
            }
            let pg = self.page_mut(p);
            if pg.nsym == 0 {
                pg.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
                return;
            }
            for i in 0..n {
                pg.set_c(o + i, (v >> (8 * i)) as u8);
            }
        } else {
            for i in 0..n {
                self.set(off + i as u64, B::C((v >> (8 * i)) as u8));
            }
        }
    }
    pub fn fill(&mut self, off: u64, n: u64, v: u8) {
        let mut i = off;
        let end = off + n;
        while i < end {
            let p = i as usize / PG;
            let o = i as usize % PG;
            let m = (PG - o).min((end - i) as usize);
            if v == 0 && (self.pages[p].is_none() || m == PG) {
                self.pages[p] = None;
            } else if m == PG {
                let mut pg = Page::zero();
                pg.data = [v; PG];
                self.pages[p] = Some(Rc::new(pg));
            } else {
                let pg = self.page_mut(p);
                for k in 0..m {
                    pg.set_c(o + k, v);
                }
            }
            i += m as u64;
        }
    }
    pub fn read_bytes(&self, off: u64, n: u64) -> Vec<B> {
        (0..n).map(|i| self.get(off + i)).collect()
    }
}

/// Copy between objects (snapshot semantics, so overlapping copies behave like memmove).
pub fn copy(dst: &mut Obj, doff: u64, src: &Obj, soff: u64, n: u64) {
    let mut i = 0;
    while i < n {
        let (sp, so) = ((soff + i) as usize / PG, (soff + i) as usize % PG);
        let (dp, d_o) = ((doff + i) as usize / PG, (doff + i) as usize % PG);
        let m = (PG - so).min(PG - d_o).min((n - i) as usize);
        if m == PG {
            dst.pages[dp] = src.pages[sp].clone();
        } else {
            match &src.pages[sp] {
                None => dst.fill(doff + i, m as u64, 0),
                Some(pg) => {
                    let pg = pg.clone();
                    let dpg = dst.page_mut(dp);
                    if pg.nsym == 0 && dpg.nsym == 0 {
                        dpg.data[d_o..d_o + m].copy_from_slice(&pg.data[so..so + m]);
                    } else {
                        for k in 0..m {
                            let s = if pg.nsym > 0 { pg.sym.as_ref().unwrap()[so + k] } else { NOSYM };
                            if s != NOSYM {
                                dpg.set_s(d_o + k, s);
                            } else {
                                dpg.set_c(d_o + k, pg.data[so + k]);
                            }
                        }
                    }
                }
            }
        }
        i += m as u64;
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Table {
    chunks: Vec<Rc<Vec<Slot>>>,
    pub n: usize,
}
#[derive(Clone)]
pub enum Slot {
    Live(Rc<Obj>),
    Freed,
}
impl Table {
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.n;
        self.n += 1;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).push(Slot::Live(Rc::new(o)));
        i
    }
    pub fn get(&self, i: usize) -> Option<&Slot> {
        if i >= self.n {
            return None;
        }
        Some(&self.chunks[i / CH][i % CH])
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Slot> {
        if i >= self.n {
            return None;
        }
        Some(&mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH])
    }
    pub fn chunk_eq(&self, o: &Table, c: usize) -> bool {
        c < self.chunks.len() && c < o.chunks.len() && Rc::ptr_eq(&self.chunks[c], &o.chunks[c])
    }
    pub const CHUNK: usize = CH;
}
