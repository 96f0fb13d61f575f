//! Hash-consed bit-vector expression DAG with on-the-fly simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a = high, b = low
    Extract, // a, k = low bit
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: O,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn ones(w: u32) -> u128 {
    mask(u128::MAX, w)
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Default)]
struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
#[derive(Default, Clone)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = FxHasherPub;
    fn build_hasher(&self) -> FxHasherPub {
        FxHasherPub(FxHasher(0))
    }
}
pub struct FxHasherPub(FxHasher);
impl std::hash::Hasher for FxHasherPub {
    fn finish(&self) -> u64 {
        // final avalanche: hashbrown uses the top bits
        let x = self.0 .0;
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u8(&mut self, i: u8) {
        self.0.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.0.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.0.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0.write_u64(i)
    }
    fn write_u128(&mut self, i: u128) {
        self.0.write_u128(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.0.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.0.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Id>,
    pub umin: Vec<u128>,
    pub umax: Vec<u128>,
    /// known-zero / known-one bits
    pub known: Vec<(u128, u128)>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
    pub vars: Vec<Option<Rc<Vec<u32>>>>, // variable support per node
    /// longest way to a leaf
    depth: Vec<u32>,
    extracts: FxMap<(Id, u32, u32), Id>,
}

use O::*;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            map: FxMap::default(),
            umin: vec![],
            umax: vec![],
            known: vec![],
            nvars: 0,
            var_w: vec![],
            vars: vec![],
            depth: vec![],
            extracts: FxMap::default(),
        };
        // id 0 reserved
        c.raw(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        c.raw(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 1 });
        c
    }
    pub const FALSE: Id = 0;
    pub const TRUE: Id = 1;

    fn raw(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        let (lo, hi) = self.range(&n);
        let d = match n.op {
            Const | Var => 0,
            _ => 1 + [n.a, n.b, n.c].iter().map(|i| self.depth.get(*i as usize).copied().unwrap_or(0)).max().unwrap(),
        };
        self.depth.push(d);
        self.nodes.push(n);
        self.umin.push(lo);
        self.umax.push(hi);
        let kb = self.known_bits(&n);
        self.known.push(kb);
        self.vars.push(None);
        self.map.insert(n, id);
        id
    }
    pub fn depth(&self, i: Id) -> u32 {
        self.depth[i as usize]
    }
    fn known_bits(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = ones(w);
        let k = |i: Id| self.known[i as usize];
        let cst = |i: Id| {
            let n = &self.nodes[i as usize];
            if n.op == Const {
                Some(n.k)
            } else {
                None
            }
        };
        let (z, o) = match n.op {
            Const => (!n.k, n.k),
            Not => {
                let (z, o) = k(n.a);
                (o, z)
            }
            ZExt => {
                let aw = self.nodes[n.a as usize].w as u32;
                let (z, o) = k(n.a);
                (z | !ones(aw), o)
            }
            Concat => {
                let bw = self.nodes[n.b as usize].w as u32;
                let ((az, ao), (bz, bo)) = (k(n.a), k(n.b));
                ((az << bw) | bz, (ao << bw) | bo)
            }
            Extract => {
                let (z, o) = k(n.a);
                (z >> n.k, o >> n.k)
            }
            And => {
                let ((az, ao), (bz, bo)) = (k(n.a), k(n.b));
                (az | bz, ao & bo)
            }
            Or => {
                let ((az, ao), (bz, bo)) = (k(n.a), k(n.b));
                (az & bz, ao | bo)
            }
            Xor => {
                let ((az, ao), (bz, bo)) = (k(n.a), k(n.b));
                ((az & bz) | (ao & bo), (az & bo) | (ao & bz))
            }
            Ite => {
                let ((az, ao), (bz, bo)) = (k(n.b), k(n.c));
                (az & bz, ao & bo)
            }
            Shl => match cst(n.b) {
                Some(s) if s < w as u128 => {
                    let (z, o) = k(n.a);
                    ((z << s) | ones(s as u32), o << s)
                }
                _ => (0, 0),
            },
            LShr => match cst(n.b) {
                Some(s) if s < w as u128 => {
                    let (z, o) = k(n.a);
                    ((z >> s) | !(m >> s), o >> s)
                }
                _ => (0, 0),
            },
            Add | Sub | Mul => {
                // trailing zeros
                let t = |i: Id| (!k(i).0).trailing_zeros().min(w);
                let n0 = if n.op == Mul { (t(n.a) + t(n.b)).min(w) } else { t(n.a).min(t(n.b)) };
                (ones(n0), 0)
            }
            _ => (0, 0),
        };
        (z & m, o & m)
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        self.range_of(n, &mut |i: Id| (self.umin[i as usize], self.umax[i as usize]))
    }
    /// Bounds of an expression under assumed bounds of some of its parts.
    pub fn bounds(&self, i: Id, over: &FxMap<Id, (u128, u128)>, memo: &mut FxMap<Id, (u128, u128)>) -> (u128, u128) {
        let (l, h) = (self.umin[i as usize], self.umax[i as usize]);
        if l == h {
            return (l, h);
        }
        if let Some(r) = memo.get(&i) {
            return *r;
        }
        if memo.len() > 400 {
            return (l, h);
        }
        memo.insert(i, (l, h));
        let n = self.nodes[i as usize];
        let mut r = (l, h);
        let mut cut = |l: u128, h: u128| {
            let t = (r.0.max(l), r.1.min(h));
            if t.0 <= t.1 {
                r = t;
            }
        };
        if let Some(o) = over.get(&i) {
            cut(o.0, o.1);
        }
        if n.op != Var {
            let t = match n.op {
                Ite => match self.bounds(n.a, over, memo) {
                    (1, 1) => self.bounds(n.b, over, memo),
                    (0, 0) => self.bounds(n.c, over, memo),
                    _ => {
                        let (al, ah) = self.bounds(n.b, over, memo);
                        let (bl, bh) = self.bounds(n.c, over, memo);
                        (al.min(bl), ah.max(bh))
                    }
                },
                _ => self.range_of(&n, &mut |k| self.bounds(k, over, memo)),
            };
            cut(t.0, t.1);
        }
        memo.insert(i, r);
        r
    }
    fn range_of(&self, n: &Node, r: &mut dyn FnMut(Id) -> (u128, u128)) -> (u128, u128) {
        let w = n.w as u32;
        let full = (0, ones(w));
        let yes = |t: bool, f: bool| if t { (1, 1) } else if f { (0, 0) } else { (0, 1) };
        match n.op {
            Const => (n.k, n.k),
            ZExt => r(n.a),
            Concat => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                let bw = self.nodes[n.b as usize].w as u32;
                ((al << bw) | bl, (ah << bw) | bh)
            }
            Extract => {
                let (l, h) = r(n.a);
                let (l, h) = (l >> n.k, h >> n.k);
                let top = |v: u128| if w >= 128 { 0 } else { v >> w };
                if top(l) == top(h) {
                    (l & ones(w), h & ones(w))
                } else {
                    full
                }
            }
            Ult | Ule | Eq => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                match n.op {
                    Ult => yes(ah < bl, al >= bh),
                    Ule => yes(ah <= bl, al > bh),
                    _ => yes(al == ah && bl == bh && al == bl, ah < bl || bh < al),
                }
            }
            Not => {
                let (l, h) = r(n.a);
                (ones(w) - h, ones(w) - l)
            }
            And => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                (if w == 1 { al & bl } else { 0 }, ah.min(bh))
            }
            Or | Xor => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                let m = ah | bh;
                let bits = 128 - m.leading_zeros();
                (if n.op == Or { al.max(bl) } else { 0 }, ones(bits))
            }
            Add => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                match ah.checked_add(bh) {
                    Some(h) if h <= ones(w) => (al + bl, h),
                    // every sum wraps
                    Some(h) if w < 128 && al + bl > ones(w) => (al + bl - ones(w) - 1, h - ones(w) - 1),
                    _ => full,
                }
            }
            Sub => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            Mul => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                match ah.checked_mul(bh) {
                    Some(h) if h <= ones(w) => (al * bl, h),
                    _ => full,
                }
            }
            UDiv => {
                let (al, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            URem => {
                let (_, ah) = r(n.a);
                let (bl, bh) = r(n.b);
                if bl > 0 {
                    (0, ah.min(bh - 1))
                } else {
                    full
                }
            }
            LShr => {
                let (_, ah) = r(n.a);
                let (bl, _) = r(n.b);
                (0, if bl >= 128 { 0 } else { ah >> bl })
            }
            Ite => {
                let (al, ah) = r(n.b);
                let (bl, bh) = r(n.c);
                (al.min(bl), ah.max(bh))
            }
            _ => full,
        }
    }

    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w as u32
    }
    pub fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        self.raw(Node { op: Const, w: w as u16, a: 0, b: 0, c: 0, k: mask(v, w) })
    }
    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, w: u32) -> Id {
        let k = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.raw(Node { op: Var, w: w as u16, a: 0, b: 0, c: 0, k: k as u128 })
    }
    /// Make (or get) the node for variable number `k`.
    pub fn var_n(&mut self, k: u32, w: u32) -> Id {
        while self.nvars <= k {
            self.nvars += 1;
            self.var_w.push(w);
        }
        self.raw(Node { op: Var, w: w as u16, a: 0, b: 0, c: 0, k: k as u128 })
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        match n.op {
            Const => self.konst(!n.k, n.w as u32),
            Not => n.a,
            Ult => self.raw(Node { op: Ule, w: 1, a: n.b, b: n.a, c: 0, k: 0 }),
            Ule => self.raw(Node { op: Ult, w: 1, a: n.b, b: n.a, c: 0, k: 0 }),
            Slt => self.raw(Node { op: Sle, w: 1, a: n.b, b: n.a, c: 0, k: 0 }),
            Sle => self.raw(Node { op: Slt, w: 1, a: n.b, b: n.a, c: 0, k: 0 }),
            Concat => {
                let h = self.not(n.a);
                let l = self.not(n.b);
                self.concat(h, l)
            }
            _ => self.raw(Node { op: Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w as u32 + l.w as u32;
        if h.op == Const && l.op == Const {
            return self.konst((h.k << l.w) | l.k, w);
        }
        if h.op == Const && h.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if h.op == Extract && l.op == Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, l.k as u32, w);
        }
        // the same with one side in simplified form
        if h.op == Extract && h.k >= l.w as u128 && l.op != Const {
            let from = h.k as u32 - l.w as u32;
            if self.extract(h.a, from, l.w as u32) == lo {
                return self.extract(h.a, from, w);
            }
        }
        if l.op == Extract && h.op != Const && l.k as u32 + w <= self.w(l.a) && self.extract(l.a, l.k as u32 + l.w as u32, h.w as u32) == hi {
            return self.extract(l.a, l.k as u32, w);
        }
        // hi = concat(x, extract), lo = extract adjacent
        if h.op == Concat {
            // right-assoc canonical form: concat(x, concat(y, lo))
            let nl = self.concat(h.b, lo);
            return self.concat(h.a, nl);
        }
        if h.op == ZExt {
            let nl = self.concat(h.a, lo);
            return self.zext(nl, w);
        }
        if l.op == Concat {
            let lh = self.n(l.a);
            if h.op == Extract && h.k >= lh.w as u128 && lh.op != Extract && lh.op != Const {
                let from = h.k as u32 - lh.w as u32;
                if self.extract(h.a, from, lh.w as u32) == l.a {
                    let m = self.extract(h.a, from, (h.w + lh.w) as u32);
                    return self.concat(m, l.b);
                }
            }
            if h.op == Extract && lh.op == Extract && h.a == lh.a && h.k == lh.k + lh.w as u128 {
                let m = self.extract(h.a, lh.k as u32, (h.w + lh.w) as u32);
                return self.concat(m, l.b);
            }
            if h.op == Const && lh.op == Const {
                let m = self.konst((h.k << lh.w) | lh.k, (h.w + lh.w) as u32);
                return self.concat(m, l.b);
            }
        }
        // x:extract where extract(x...)? e.g. concat(extract(a, k..), a') handled above
        // low part whole of a narrower expression that equals an extract with k=0 is normalised by extract()
        self.raw(Node { op: Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let n = self.n(a);
        if lo == 0 && w == n.w as u32 {
            return a;
        }
        debug_assert!(lo + w <= n.w as u32);
        if self.depth[a as usize] > 6 {
            if let Some(r) = self.extracts.get(&(a, lo, w)) {
                return *r;
            }
            let r = self.extract_(a, n, lo, w);
            self.extracts.insert((a, lo, w), r);
            return r;
        }
        self.extract_(a, n, lo, w)
    }
    fn extract_(&mut self, a: Id, n: Node, lo: u32, w: u32) -> Id {
        match n.op {
            Const => self.konst(n.k >> lo, w),
            Extract => self.extract(n.a, n.k as u32 + lo, w),
            Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    self.konst(0, w)
                } else if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else {
                    let l = self.extract(n.a, lo, aw - lo);
                    self.zext(l, w)
                }
            }
            SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else if lo < aw {
                    let l = self.extract(n.a, lo, aw - lo);
                    self.sext(l, w)
                } else {
                    let s = self.extract(n.a, aw - 1, 1);
                    self.sext(s, w)
                }
            }
            And | Or | Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                match n.op {
                    And => self.and(x, y),
                    Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Add | Sub | Mul if lo == 0 && self.depth[a as usize] <= 60 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                match n.op {
                    Add => self.add(x, y),
                    Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                }
            }
            Ite => {
                let bc = self.n(n.b).op == Const;
                let cc = self.n(n.c).op == Const;
                let ext = |o: O| matches!(o, Const | ZExt | Concat | SExt | Extract | Ite);
                if bc || cc || (ext(self.n(n.b).op) && ext(self.n(n.c).op)) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.raw(Node { op: Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
                }
            }
            _ => {
                if (self.umax[a as usize] >> lo) == 0 {
                    return self.konst(0, w);
                }
                self.raw(Node { op: Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
            }
        }
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Const => self.konst(n.k, w),
            ZExt => self.zext(n.a, w),
            _ => {
                // zext(extract(x,0,k)) where x fits in k bits and widths agree
                if n.op == Extract && n.k == 0 {
                    let xw = self.w(n.a);
                    if self.umax[n.a as usize] <= ones(n.w as u32) {
                        if xw == w {
                            return n.a;
                        } else if xw < w {
                            return self.zext(n.a, w);
                        }
                    }
                }
                self.raw(Node { op: ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Const => self.konst(sx(n.k, n.w as u32) as u128, w),
            SExt => self.sext(n.a, w),
            _ => {
                if self.umax[a as usize] <= ones(n.w as u32 - 1) && n.w > 1 {
                    return self.zext(a, w);
                }
                if n.op == ZExt {
                    return self.zext(n.a, w);
                }
                self.raw(Node { op: SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    fn comm(&self, a: Id, b: Id) -> (Id, Id) {
        let ac = self.nodes[a as usize].op == Const;
        let bc = self.nodes[b as usize].op == Const;
        if ac && !bc {
            (b, a)
        } else if bc {
            (a, b)
        } else if a > b {
            (b, a)
        } else {
            (a, b)
        }
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = self.comm(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if w == 1 {
            return self.xor(a, b);
        }
        if nb.op == Const {
            if na.op == Const {
                return self.konst(na.k.wrapping_add(nb.k), w);
            }
            if nb.k == 0 {
                return a;
            }
            if na.op == Add {
                let n2 = self.n(na.b);
                if n2.op == Const {
                    let c = self.konst(n2.k.wrapping_add(nb.k), w);
                    return self.add(na.a, c);
                }
            }
            if na.op == Sub {
                let n2 = self.n(na.a);
                if n2.op == Const {
                    let c = self.konst(n2.k.wrapping_add(nb.k), w);
                    return self.sub(c, na.b);
                }
            }
            if na.op == Ite {
                if let (Some(x), Some(y)) = (self.is_const(na.b), self.is_const(na.c)) {
                    let x = self.konst(x.wrapping_add(nb.k), w);
                    let y = self.konst(y.wrapping_add(nb.k), w);
                    return self.ite(na.a, x, y);
                }
            }
        } else {
            // pull constants out: (x + c) + y -> (x + y) + c
            if na.op == Add && self.n(na.b).op == Const {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            if nb.op == Add && self.n(nb.b).op == Const {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            if na.op == Sub && na.b == b {
                return na.a;
            }
            if nb.op == Sub && nb.b == a {
                return nb.a;
            }
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.raw(Node { op: Add, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if a == b {
            return self.konst(0, w);
        }
        if nb.op == Const {
            let c = self.konst(nb.k.wrapping_neg(), w);
            return self.add(a, c);
        }
        if na.op == Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.n(na.b).op == Const {
                // (x + c) - b
                if nb.op == Add && self.n(nb.b).op == Const {
                    let (c1, c2) = (self.n(na.b).k, self.n(nb.b).k);
                    let s = self.sub(na.a, nb.a);
                    let c = self.konst(c1.wrapping_sub(c2), w);
                    return self.add(s, c);
                }
                let s = self.sub(na.a, b);
                return self.add(s, na.b);
            }
        }
        if nb.op == Add {
            if self.n(nb.b).op == Const {
                let s = self.sub(a, nb.a);
                return self.sub(s, nb.b);
            }
            if nb.a == a {
                let z = self.konst(0, w);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.konst(0, w);
                return self.sub(z, nb.a);
            }
        }
        if nb.op == Sub && nb.a == a {
            return nb.b;
        }
        self.raw(Node { op: Sub, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = self.comm(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            if na.op == Const {
                return self.konst(na.k.wrapping_mul(nb.k), w);
            }
            if nb.k == 0 {
                return b;
            }
            if nb.k == 1 {
                return a;
            }
            if nb.k.is_power_of_two() {
                let s = self.konst(nb.k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
        }
        self.raw(Node { op: Mul, w: w as u16, a, b, c: 0, k: 0 })
    }

    /// segments low..high of an expression: (width, Some(expr) | None for zero bits)
    fn segs(&mut self, a: Id, out: &mut Vec<(u32, Id, bool)>) {
        let n = self.n(a);
        match n.op {
            Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            ZExt => {
                let aw = self.w(n.a);
                self.segs(n.a, out);
                out.push((n.w as u32 - aw, 0, true));
            }
            Const if n.k == 0 => out.push((n.w as u32, 0, true)),
            Const => {
                // split const into zero / nonzero runs at byte granularity
                let mut i = 0;
                let w = n.w as u32;
                while i < w {
                    let s = (w - i).min(8);
                    let v = mask(n.k >> i, s);
                    if v == 0 {
                        out.push((s, 0, true));
                    } else {
                        let c = self.konst(v, s);
                        out.push((s, c, false));
                    }
                    i += s;
                }
            }
            _ => {
                let m = self.umax[a as usize];
                let bits = 128 - m.leading_zeros();
                if bits < n.w as u32 && bits > 0 {
                    let l = self.raw(Node { op: Extract, w: bits as u16, a, b: 0, c: 0, k: 0 });
                    out.push((bits, l, false));
                    out.push((n.w as u32 - bits, 0, true));
                } else {
                    out.push((n.w as u32, a, false))
                }
            }
        }
    }
    /// If at every bit at most one of a, b can be non-zero by structure, combine them as a concat.
    fn disjoint(&mut self, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.n(a).op, self.n(b).op);
        let st = |o: O| matches!(o, Concat | ZExt | Const);
        if !(st(na) || st(nb)) {
            return None;
        }
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        // quick reject + build
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        let mut parts: Vec<Id> = vec![];
        while i < sa.len() && j < sb.len() {
            let (wa, ea, za) = sa[i];
            let (wb, eb, zb) = sb[j];
            let s = (wa - oi).min(wb - oj);
            if !za && !zb {
                return None;
            }
            let p = if !za {
                self.extract(ea, oi, s)
            } else if !zb {
                self.extract(eb, oj, s)
            } else {
                self.konst(0, s)
            };
            parts.push(p);
            oi += s;
            oj += s;
            if oi == wa {
                i += 1;
                oi = 0;
            }
            if oj == wb {
                j += 1;
                oj = 0;
            }
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = self.concat(*p, r);
        }
        Some(r)
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = self.comm(a, b);
        if a == b {
            return a;
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            if na.op == Const {
                return self.konst(na.k & nb.k, w);
            }
            if nb.k == 0 {
                return b;
            }
            if nb.k == ones(w) {
                return a;
            }
            if na.op == And {
                let n2 = self.n(na.b);
                if n2.op == Const {
                    let c = self.konst(n2.k & nb.k, w);
                    return self.and(na.a, c);
                }
            }
            // contiguous runs of ones -> extract pieces
            let tz = nb.k.trailing_zeros();
            let run = (!(nb.k >> tz)).trailing_zeros();
            if tz + run >= 128 || (nb.k >> (tz + run)) == 0 {
                let e = self.extract(a, tz, run.min(w - tz));
                let lo = if tz > 0 {
                    let z = self.konst(0, tz);
                    self.concat(e, z)
                } else {
                    e
                };
                return self.zext(lo, w);
            }
            // mask = ones at top and zeros in a run below, i.e. !contig: clear bits
            let inv = mask(!nb.k, w);
            let tz = inv.trailing_zeros();
            let run = (!(inv >> tz)).trailing_zeros();
            if tz + run >= 128 || (inv >> (tz + run)) == 0 {
                let hi = self.extract(a, tz + run, w - tz - run);
                let z = self.konst(0, run);
                let r = self.concat(hi, z);
                if tz == 0 {
                    return r;
                }
                let l = self.extract(a, 0, tz);
                return self.concat(r, l);
            }
            if matches!(na.op, Concat | ZExt) {
                return self.split_bitwise(And, a, b);
            }
        }
        if w == 1 {
            if self.not(a) == b {
                return Self::FALSE;
            }
            if na.op == And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == And && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.and(na.a, nb.a);
            return self.zext(r, w);
        }
        self.raw(Node { op: And, w: w as u16, a, b, c: 0, k: 0 })
    }
    fn split_bitwise(&mut self, op: O, a: Id, b: Id) -> Id {
        let na = self.n(a);
        let w = na.w as u32;
        let lw = if na.op == Concat { self.w(na.b) } else { self.w(na.a) };
        let al = self.extract(a, 0, lw);
        let ah = self.extract(a, lw, w - lw);
        let bl = self.extract(b, 0, lw);
        let bh = self.extract(b, lw, w - lw);
        let (l, h) = match op {
            And => (self.and(al, bl), self.and(ah, bh)),
            Or => (self.or(al, bl), self.or(ah, bh)),
            _ => (self.xor(al, bl), self.xor(ah, bh)),
        };
        self.concat(h, l)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = self.comm(a, b);
        if a == b {
            return a;
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            if na.op == Const {
                return self.konst(na.k | nb.k, w);
            }
            if nb.k == 0 {
                return a;
            }
            if nb.k == ones(w) {
                return b;
            }
            if na.op == Or {
                let n2 = self.n(na.b);
                if n2.op == Const {
                    let c = self.konst(n2.k | nb.k, w);
                    return self.or(na.a, c);
                }
            }
        }
        if w == 1 {
            if self.not(a) == b {
                return Self::TRUE;
            }
            if na.op == Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Or && (nb.a == a || nb.b == a) {
                return b;
            }
        } else {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
            if nb.op == Const && matches!(na.op, Concat | ZExt) {
                return self.split_bitwise(Or, a, b);
            }
        }
        self.raw(Node { op: Or, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = self.comm(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if a == b {
            return self.konst(0, w);
        }
        if nb.op == Const {
            if na.op == Const {
                return self.konst(na.k ^ nb.k, w);
            }
            if nb.k == 0 {
                return a;
            }
            if nb.k == ones(w) {
                return self.not(a);
            }
            if na.op == Xor {
                let n2 = self.n(na.b);
                if n2.op == Const {
                    let c = self.konst(n2.k ^ nb.k, w);
                    return self.xor(na.a, c);
                }
            }
            if matches!(na.op, Concat | ZExt) {
                return self.split_bitwise(Xor, a, b);
            }
        }
        // (x ^ y) ^ y
        if na.op == Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        if w > 1 {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.raw(Node { op: Xor, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            if nb.k >= w as u128 {
                return self.konst(0, w);
            }
            let s = nb.k as u32;
            if s == 0 {
                return a;
            }
            let e = self.extract(a, 0, w - s);
            let z = self.konst(0, s);
            return self.concat(e, z);
        }
        if na.op == Const && na.k == 0 {
            return a;
        }
        self.raw(Node { op: Shl, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            if nb.k >= w as u128 {
                return self.konst(0, w);
            }
            let s = nb.k as u32;
            if s == 0 {
                return a;
            }
            let e = self.extract(a, s, w - s);
            return self.zext(e, w);
        }
        if na.op == Const && na.k == 0 {
            return a;
        }
        self.raw(Node { op: LShr, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const {
            let s = (nb.k.min(w as u128 - 1)) as u32;
            if s == 0 {
                return a;
            }
            let e = self.extract(a, s, w - s);
            return self.sext(e, w);
        }
        self.raw(Node { op: AShr, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const && nb.k != 0 {
            if na.op == Const {
                return self.konst(na.k / nb.k, w);
            }
            if nb.k.is_power_of_two() {
                let s = self.konst(nb.k.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
        }
        self.raw(Node { op: UDiv, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if nb.op == Const && nb.k != 0 {
            if na.op == Const {
                return self.konst(na.k % nb.k, w);
            }
            if nb.k.is_power_of_two() {
                let m = self.konst(nb.k - 1, w);
                return self.and(a, m);
            }
        }
        self.raw(Node { op: URem, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Const && nb.op == Const && nb.k != 0 {
            let r = sx(na.k, w).wrapping_div(sx(nb.k, w));
            return self.konst(r as u128, w);
        }
        self.raw(Node { op: SDiv, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Const && nb.op == Const && nb.k != 0 {
            let r = sx(na.k, w).wrapping_rem(sx(nb.k, w));
            return self.konst(r as u128, w);
        }
        self.raw(Node { op: SRem, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == Self::TRUE {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // share zext
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        self.raw(Node { op: Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return Self::TRUE;
        }
        let (a, b) = self.comm(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if self.umax[a as usize] < self.umin[b as usize] || self.umax[b as usize] < self.umin[a as usize] {
            return Self::FALSE;
        }
        let ((az, ao), (bz, bo)) = (self.known[a as usize], self.known[b as usize]);
        if (az & bo) | (ao & bz) != 0 {
            return Self::FALSE;
        }
        if w == 1 {
            if nb.op == Const {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if nb.op == Const {
            if na.op == Const {
                return if na.k == nb.k { Self::TRUE } else { Self::FALSE };
            }
            let k = nb.k;
            match na.op {
                ZExt => {
                    let aw = self.w(na.a);
                    if k > ones(aw) {
                        return Self::FALSE;
                    }
                    let c = self.konst(k, aw);
                    return self.eq(na.a, c);
                }
                SExt => {
                    let aw = self.w(na.a);
                    let t = mask(k, aw);
                    if mask(sx(t, aw) as u128, w) != k {
                        return Self::FALSE;
                    }
                    let c = self.konst(t, aw);
                    return self.eq(na.a, c);
                }
                Concat => {
                    let lw = self.w(na.b);
                    let hw = w - lw;
                    let kh = self.konst(k >> lw, hw);
                    let kl = self.konst(k, lw);
                    let h = self.eq(na.a, kh);
                    if h == Self::FALSE {
                        return h;
                    }
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                Not => {
                    let c = self.konst(!k, w);
                    return self.eq(na.a, c);
                }
                Add => {
                    if let Some(c1) = self.is_const(na.b) {
                        let c = self.konst(k.wrapping_sub(c1), w);
                        return self.eq(na.a, c);
                    }
                }
                Sub => {
                    if let Some(c1) = self.is_const(na.a) {
                        let c = self.konst(c1.wrapping_sub(k), w);
                        return self.eq(na.b, c);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Xor => {
                    if let Some(c1) = self.is_const(na.b) {
                        let c = self.konst(c1 ^ k, w);
                        return self.eq(na.a, c);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Or if k == 0 => {
                    let z = self.konst(0, w);
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                Ite => {
                    let bc = self.n(na.b).op == Const || self.n(na.b).op == Ite;
                    let cc = self.n(na.c).op == Const || self.n(na.c).op == Ite;
                    if bc || cc {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == ZExt && nb.op == ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                if h == Self::FALSE {
                    return h;
                }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            // bytes of a bitwise term that were stored and read back
            for (p, q, nq) in [(a, b, nb), (b, a, na)] {
                if nq.op == Concat && matches!(self.n(p).op, Or | Xor | And | Not | Ite) {
                    let lw = self.w(nq.b);
                    let ph = self.extract(p, lw, w - lw);
                    let h = self.eq(ph, nq.a);
                    if h == Self::FALSE {
                        return h;
                    }
                    if h == Self::TRUE {
                        let pl = self.extract(p, 0, lw);
                        return self.eq(pl, nq.b);
                    }
                    let _ = q;
                }
            }
            if na.op == Add && nb.op == Add {
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
            }
            if na.op == Add && na.a == b {
                let z = self.konst(0, w);
                return self.eq(na.b, z);
            }
            if nb.op == Add && nb.a == a {
                let z = self.konst(0, w);
                return self.eq(nb.b, z);
            }
        }
        self.raw(Node { op: Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return Self::FALSE;
        }
        let (al, ah) = (self.umin[a as usize], self.umax[a as usize]);
        let (bl, bh) = (self.umin[b as usize], self.umax[b as usize]);
        if ah < bl {
            return Self::TRUE;
        }
        if al >= bh {
            return Self::FALSE;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == ZExt || nb.op == ZExt {
            // narrow
            let wa = if na.op == ZExt {
                Some(self.w(na.a))
            } else {
                None
            };
            let wb = if nb.op == ZExt {
                Some(self.w(nb.a))
            } else {
                None
            };
            match (wa, wb) {
                (Some(x), Some(y)) => {
                    let m = x.max(y);
                    let p = self.zext(na.a, m);
                    let q = self.zext(nb.a, m);
                    return self.ult(p, q);
                }
                (Some(x), None) if nb.op == Const => {
                    // range check above guarantees nb.k <= umax
                    if nb.k <= ones(x) {
                        let c = self.konst(nb.k, x);
                        return self.ult(na.a, c);
                    }
                }
                (None, Some(y)) if na.op == Const => {
                    if na.k <= ones(y) {
                        let c = self.konst(na.k, y);
                        return self.ult(c, nb.a);
                    }
                }
                _ => {}
            }
        }
        if nb.op == Const && nb.k == 1 {
            let z = self.konst(0, na.w as u32);
            return self.eq(a, z);
        }
        if na.op == Const && na.k == 0 {
            let z = self.konst(0, na.w as u32);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if nb.op == Const && na.op == Concat {
            // compare by leading part when low part of const is zero
            let lw = self.w(na.b);
            if mask(nb.k, lw) == 0 {
                let c = self.konst(nb.k >> lw, na.w as u32 - lw);
                return self.ult(na.a, c);
            }
        }
        if nb.op == Const && nb.k.is_power_of_two() && na.op != Const {
            // a < 2^k  <=> high bits zero
            let k = nb.k.trailing_zeros();
            let w = na.w as u32;
            let h = self.extract(a, k, w - k);
            let z = self.konst(0, w - k);
            return self.eq(h, z);
        }
        self.raw(Node { op: Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return Self::FALSE;
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Const && nb.op == Const {
            return if sx(na.k, w) < sx(nb.k, w) { Self::TRUE } else { Self::FALSE };
        }
        let half = 1u128 << (w - 1);
        let (al, ah) = (self.umin[a as usize], self.umax[a as usize]);
        let (bl, bh) = (self.umin[b as usize], self.umax[b as usize]);
        if ah < half && bh < half {
            return self.ult(a, b);
        }
        if ah < half && bl >= half {
            return Self::FALSE;
        }
        if al >= half && bh < half {
            return Self::TRUE;
        }
        if al >= half && bl >= half {
            return self.ult(a, b);
        }
        if nb.op == Const && nb.k == 0 {
            return self.extract(a, w - 1, 1);
        }
        if na.op == Const && na.k == ones(w) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.raw(Node { op: Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let z = self.konst(0, self.w(a));
        self.sub(z, a)
    }

    pub fn support(&mut self, root: Id) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[root as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(root, false)];
        while let Some((i, done)) = stack.pop() {
            if self.vars[i as usize].is_some() {
                continue;
            }
            let n = self.nodes[i as usize];
            let kids: &[Id] = match n.op {
                Const | Var => &[],
                Not | Extract | ZExt | SExt => &[n.a],
                Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            if !done {
                stack.push((i, true));
                for k in kids {
                    if self.vars[*k as usize].is_none() {
                        stack.push((*k, false));
                    }
                }
                continue;
            }
            let v: Rc<Vec<u32>> = match n.op {
                Const => Rc::new(vec![]),
                Var => Rc::new(vec![n.k as u32]),
                _ => {
                    let mut best: Rc<Vec<u32>> = self.vars[kids[0] as usize].clone().unwrap();
                    for k in &kids[1..] {
                        let o = self.vars[*k as usize].clone().unwrap();
                        if Rc::ptr_eq(&best, &o) || o.is_empty() {
                            continue;
                        }
                        if best.is_empty() {
                            best = o;
                            continue;
                        }
                        // merge sorted
                        let mut m = Vec::with_capacity(best.len() + o.len());
                        let (mut x, mut y) = (0, 0);
                        while x < best.len() || y < o.len() {
                            if y >= o.len() || (x < best.len() && best[x] < o[y]) {
                                m.push(best[x]);
                                x += 1;
                            } else if x >= best.len() || o[y] < best[x] {
                                m.push(o[y]);
                                y += 1;
                            } else {
                                m.push(o[y]);
                                x += 1;
                                y += 1;
                            }
                        }
                        if m.len() == best.len() {
                            continue;
                        }
                        if m.len() == o.len() {
                            best = o;
                            continue;
                        }
                        best = Rc::new(m);
                    }
                    best
                }
            };
            self.vars[i as usize] = Some(v);
        }
        self.vars[root as usize].clone().unwrap()
    }

    /// Evaluate under a model (missing variables are 0), memoised in `memo`.
    pub fn eval(&self, root: Id, model: &dyn Fn(u32) -> u128, memo: &mut FxMap<Id, u128>) -> u128 {
        if let Some(k) = self.is_const(root) {
            return k;
        }
        if let Some(v) = memo.get(&root) {
            return *v;
        }
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            if memo.contains_key(&i) {
                stack.pop();
                continue;
            }
            let n = self.nodes[i as usize];
            let w = n.w as u32;
            macro_rules! get {
                ($x:expr) => {{
                    let x = $x;
                    let nx = &self.nodes[x as usize];
                    if nx.op == Const {
                        nx.k
                    } else if let Some(v) = memo.get(&x) {
                        *v
                    } else {
                        stack.push(x);
                        continue;
                    }
                }};
            }
            let v = match n.op {
                Const => n.k,
                Var => model(n.k as u32),
                Not => !get!(n.a),
                ZExt => get!(n.a),
                SExt => sx(get!(n.a), self.w(n.a)) as u128,
                Extract => get!(n.a) >> n.k,
                Ite => {
                    if get!(n.a) == 1 {
                        get!(n.b)
                    } else {
                        get!(n.c)
                    }
                }
                Concat => {
                    let h = get!(n.a);
                    let l = get!(n.b);
                    (h << self.w(n.b)) | l
                }
                _ => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    let aw = self.w(n.a);
                    match n.op {
                        Add => a.wrapping_add(b),
                        Sub => a.wrapping_sub(b),
                        Mul => a.wrapping_mul(b),
                        UDiv => {
                            if b == 0 {
                                ones(w)
                            } else {
                                a / b
                            }
                        }
                        URem => {
                            if b == 0 {
                                a
                            } else {
                                a % b
                            }
                        }
                        SDiv => {
                            if b == 0 {
                                if sx(a, w) < 0 {
                                    1
                                } else {
                                    ones(w)
                                }
                            } else {
                                sx(a, w).wrapping_div(sx(b, w)) as u128
                            }
                        }
                        SRem => {
                            if b == 0 {
                                a
                            } else {
                                sx(a, w).wrapping_rem(sx(b, w)) as u128
                            }
                        }
                        And => a & b,
                        Or => a | b,
                        Xor => a ^ b,
                        Shl => {
                            if b >= w as u128 {
                                0
                            } else {
                                a << b
                            }
                        }
                        LShr => {
                            if b >= w as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        AShr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
                        Eq => (a == b) as u128,
                        Ult => (a < b) as u128,
                        Ule => (a <= b) as u128,
                        Slt => (sx(a, aw) < sx(b, aw)) as u128,
                        Sle => (sx(a, aw) <= sx(b, aw)) as u128,
                        _ => unreachable!(),
                    }
                }
            };
            memo.insert(i, mask(v, w));
            stack.pop();
        }
        memo[&root]
    }

    pub fn show(&self, i: Id, depth: u32) -> String {
        let n = self.n(i);
        match n.op {
            Const => format!("{:#x}:{}", n.k, n.w),
            Var => format!("v{}", n.k),
            _ if depth == 0 => "..".to_string(),
            Not | ZExt | SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Extract => format!("{}[{}..{}]", self.show(n.a, depth - 1), n.k, n.k + n.w as u128),
            Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
