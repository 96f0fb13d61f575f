//! Symbolic interpreter for rustc-generated LLVM IR.
use crate::expr::*;
use crate::ir::{self, Bin, Callee, Cast, Func, GepIdx, Inst, Module, Op, Pred, Ty, K};
use crate::mem::{self, Kind, Obj, Slot, Table, B};
use crate::solver::{Solver, R};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128, u32),
    S(Id),
    Agg(Rc<Vec<Val>>),
}
use Val::*;

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Violation,
    Assume,
    Cap(String),
    Unsupported(String),
}
type X<T> = Result<T, End>;

pub struct Model {
    pub vals: FxMap<u32, u128>,
    memo: RefCell<FxMap<Id, u128>>,
}

pub struct Block {
    phis: Vec<(u32, Vec<(u32, Op)>)>,
    insts: Vec<Inst>,
    succs: Vec<u32>,
    dead_end: bool,
}
pub struct LFunc {
    pub name: String,
    params: Vec<u32>,
    nregs: usize,
    blocks: Vec<Block>,
    ret: Ty,
    ipdom: RefCell<Option<Rc<Vec<u32>>>>,
    region: RefCell<FxMap<u32, u32>>, // branch block -> merge point (NONE = do not merge)
}
const NONE: u32 = u32::MAX;

#[derive(Clone)]
pub struct Frame {
    f: Rc<LFunc>,
    block: u32,
    prev: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    tab: Table,
    glob: Rc<FxMap<u32, Rc<Obj>>>,
    free_stack: Vec<u32>,
    pc: Vec<Id>,
    eqs: Rc<FxMap<Id, u128>>,
    /// bounds that follow from the comparisons assumed so far
    rng: Rc<FxMap<Id, (u128, u128)>>,
    fixed: Rc<Vec<u64>>,
    model: Rc<Model>,
    enums: Rc<FxMap<Id, u32>>,
    nvars: u32,
    steps: u64,
    merge: bool,
    ended: Option<Id>,
    allocated: u64,
}

#[derive(Clone)]
enum Target {
    Fn(usize),
    Bi(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub func: String,
    pub trace: Vec<String>,
    pub input: Vec<u8>,
}

/// No dictionary is as large as this: an allocation beyond it is a request that an archive must not be able to make.
const HUGE: u64 = 6 << 30;
pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_enum: u32,
    pub max_alloc: u64,
    pub deadline: Instant,
    pub max_viol: usize,
    pub max_mux: u64,
    pub trace: bool,
    pub merge: bool,
    pub max_paths: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub caps: BTreeMap<String, u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub reach: BTreeSet<u64>,
    pub incomplete: Option<String>,
    pub unknown: u64,
    pub branches_concrete: u64,
    pub branches_symbolic: u64,
    pub fnb: HashMap<String, u64>,
    pub samples: Vec<Vec<u8>>,
}

pub struct Vm {
    m: Module,
    pub cx: Ctx,
    pub sv: Solver,
    pub cfg: Cfg,
    pub st: Stats,
    pub viols: Vec<Violation>,
    viol_keys: BTreeSet<String>,
    konsts: Vec<Val>,
    gidx: HashMap<String, u32>,
    fn_addr: HashMap<String, u32>,
    fn_names: Vec<String>,
    ginit: Vec<Option<Rc<Obj>>>,
    targets: Vec<Target>,
    target_ix: HashMap<String, u32>,
    funcs: Vec<Option<Rc<LFunc>>>,
    func_ix: HashMap<String, usize>,
    func_names: Vec<String>,
    pending: Vec<State>,
    stop_now: bool,
    mergeable: HashMap<String, bool>,
    dynbase: u32,
    pub total_blocks: HashMap<String, (usize, BTreeSet<u32>)>,
}

fn w_of(t: &Ty) -> u32 {
    t.bits()
}

impl Vm {
    pub fn new(m: Module, cfg: Cfg, timeout_ms: u32) -> Vm {
        let mut gidx = HashMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            gidx.insert(g.name.clone(), i as u32);
        }
        let ng = m.globals.len() as u32;
        let mut fn_addr = HashMap::new();
        let mut fn_names = vec![];
        let mut names: Vec<String> = m.fn_pos.keys().cloned().collect();
        names.sort();
        names.extend(m.decls.iter().cloned());
        for n in names {
            if !fn_addr.contains_key(&n) {
                fn_addr.insert(n.clone(), ng + fn_names.len() as u32);
                fn_names.push(n);
            }
        }
        let dynbase = ng + fn_names.len() as u32;
        Vm {
            ginit: vec![None; m.globals.len()],
            m,
            cx: Ctx::new(),
            sv: Solver::new(timeout_ms),
            cfg,
            st: Stats::default(),
            viols: vec![],
            viol_keys: BTreeSet::new(),
            konsts: vec![],
            gidx,
            fn_addr,
            fn_names,
            targets: vec![],
            target_ix: HashMap::new(),
            funcs: vec![],
            func_ix: HashMap::new(),
            func_names: vec![],
            pending: vec![],
            stop_now: false,
            mergeable: HashMap::new(),
            dynbase,
            total_blocks: HashMap::new(),
        }
    }

    // ---------- constants ----------
    fn alias<'a>(&'a self, n: &'a str) -> &'a str {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        n
    }
    fn global_addr(&self, n: &str) -> u64 {
        let n = self.alias(n);
        if let Some(i) = self.gidx.get(n) {
            return ((*i as u64) + 1) << 32;
        }
        if let Some(i) = self.fn_addr.get(n) {
            return ((*i as u64) + 1) << 32;
        }
        panic!("unknown global {}", n)
    }
    fn kval(&self, k: &K, t: &Ty) -> Val {
        match k {
            K::Int(_, v) => C(*v, w_of(t)),
            K::Null => C(0, 64),
            K::Zero(_) | K::Undef(_) => self.zero(t),
            K::Global(n) => C(self.global_addr(n) as u128, 64),
            K::Agg(at, v) => {
                let mut o = vec![];
                for (i, e) in v.iter().enumerate() {
                    o.push(self.kval(e, &at.elem(i)));
                }
                Agg(Rc::new(o))
            }
            K::Bytes(b) => Agg(Rc::new(b.iter().map(|x| C(*x as u128, 8)).collect())),
            K::Gep(bt, base, idx) => {
                let b = match self.kval(base, &Ty::Ptr) {
                    C(v, _) => v as u64,
                    _ => panic!(),
                };
                let mut off = 0u64;
                let mut t = bt.clone();
                for (i, k) in idx.iter().enumerate() {
                    let v = match k {
                        K::Int(Ty::Int(w), v) => ir::sext(*v, *w) as i64,
                        K::Zero(_) => 0,
                        x => panic!("gep const idx {:?}", x),
                    };
                    if i == 0 {
                        off = off.wrapping_add((v as u64).wrapping_mul(t.size()));
                    } else {
                        off = match &t {
                            Ty::Struct(..) => off + t.field_offset(v as usize),
                            _ => off.wrapping_add((v as u64).wrapping_mul(t.elem(0).size())),
                        };
                        t = t.elem(match &t {
                            Ty::Struct(..) => v as usize,
                            _ => 0,
                        });
                    }
                }
                C(b.wrapping_add(off) as u128, 64)
            }
            K::Cast(op, a, dt) => {
                let v = self.kval(a, &Ty::Int(64));
                match v {
                    C(x, _) => {
                        let _ = op;
                        C(mask(x, w_of(dt)), w_of(dt))
                    }
                    _ => panic!("const cast"),
                }
            }
            K::Bin(op, a, b) => {
                let (x, y) = match (self.kval(a, t), self.kval(b, t)) {
                    (C(x, _), C(y, _)) => (x, y),
                    _ => panic!(),
                };
                let r = match op.as_str() {
                    "sub" => x.wrapping_sub(y),
                    "add" => x.wrapping_add(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    o => panic!("const {}", o),
                };
                C(mask(r, w_of(t)), w_of(t))
            }
            K::Unsupported(s) => {
                if let Ty::Float(w) = t {
                    let _ = s;
                    return C(0, *w);
                }
                panic!("unsupported const {}", s)
            }
        }
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => C(0, *w),
            Ty::Ptr => C(0, 64),
            Ty::Float(w) => C(0, *w),
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => {
                let n = t.count();
                Agg(Rc::new((0..n).map(|i| self.zero(&t.elem(i))).collect()))
            }
            _ => C(0, 64),
        }
    }
    fn write_k(&self, o: &mut Obj, off: u64, k: &K, t: &Ty) {
        match k {
            K::Zero(_) | K::Undef(_) | K::Null => {}
            K::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.set(off + i as u64, B::C(*x));
                }
            }
            K::Agg(at, v) => {
                for (i, e) in v.iter().enumerate() {
                    let (eo, et) = (at.field_offset(i), at.elem(i));
                    self.write_k(o, off + eo, e, &et);
                }
            }
            _ => {
                if let C(v, _) = self.kval(k, t) {
                    o.write_c(off, t.store_size() as usize, v);
                } else {
                    panic!("write_k")
                }
            }
        }
    }
    fn ginit(&mut self, i: usize) -> Rc<Obj> {
        if let Some(o) = &self.ginit[i] {
            return o.clone();
        }
        let g = &self.m.globals[i];
        let sz = g.ty.size().max(if g.init.is_none() { 8 } else { 0 });
        let mut o = Obj::new(sz, if g.constant { Kind::Const } else { Kind::Global });
        if let Some(k) = &g.init {
            self.write_k(&mut o, 0, k, &g.ty);
        }
        let r = Rc::new(o);
        self.ginit[i] = Some(r.clone());
        r
    }

    // ---------- linking ----------
    fn link_op(&mut self, o: &mut Op, t: &Ty) {
        if let Op::K(k) = o {
            let v = if matches!(t, Ty::Other) { C(0, 64) } else { self.kval(k, t) };
            let i = self.konsts.len() as u32;
            self.konsts.push(v);
            *o = Op::C(i);
        }
    }
    fn target(&mut self, n: &str) -> u32 {
        let n = self.alias(n).to_string();
        if let Some(i) = self.target_ix.get(&n) {
            return *i;
        }
        let builtin = is_builtin(&n) || !self.m.fn_pos.contains_key(&n);
        let t = if builtin {
            Target::Bi(n.clone())
        } else {
            let i = self.funcs.len();
            self.funcs.push(None);
            self.func_ix.insert(n.clone(), i);
            self.func_names.push(n.clone());
            Target::Fn(i)
        };
        let i = self.targets.len() as u32;
        self.targets.push(t);
        self.target_ix.insert(n, i);
        i
    }
    fn func(&mut self, i: usize) -> Rc<LFunc> {
        if let Some(f) = &self.funcs[i] {
            return f.clone();
        }
        let name = self.func_names[i].clone();
        let f = ir::parse_func(&self.m, &name).unwrap_or_else(|| panic!("no function {}", name));
        let f = Rc::new(self.link(f));
        self.funcs[i] = Some(f.clone());
        f
    }
    fn link(&mut self, f: Func) -> LFunc {
        let mut blocks = vec![];
        for b in f.blocks {
            let mut phis = vec![];
            let mut insts = vec![];
            let mut succs = vec![];
            for mut i in b {
                match &mut i {
                    Inst::Bin(_, _, t, a, b) | Inst::ICmp(_, _, t, a, b) => {
                        let t = t.clone();
                        self.link_op(a, &t);
                        self.link_op(b, &t);
                    }
                    Inst::Cast(_, _, t, a, _) => {
                        let t = t.clone();
                        self.link_op(a, &t)
                    }
                    Inst::Select(_, ct, t, c, a, b) => {
                        let (ct, t) = (ct.clone(), t.clone());
                        self.link_op(c, &ct);
                        self.link_op(a, &t);
                        self.link_op(b, &t);
                    }
                    Inst::Load(_, _, p) => self.link_op(p, &Ty::Ptr),
                    Inst::Store(t, v, p) => {
                        let t = t.clone();
                        self.link_op(v, &t);
                        self.link_op(p, &Ty::Ptr);
                    }
                    Inst::Gep(_, b, idx) => {
                        self.link_op(b, &Ty::Ptr);
                        for x in idx.iter_mut() {
                            if let GepIdx::Scaled(o, w, _) = x {
                                let t = Ty::Int(*w);
                                self.link_op(o, &t);
                            }
                        }
                    }
                    Inst::Phi(..) => {}
                    Inst::Br(t) => succs.push(*t),
                    Inst::CondBr(c, a, b) => {
                        self.link_op(c, &Ty::Int(1));
                        succs.push(*a);
                        succs.push(*b);
                    }
                    Inst::Switch(o, w, d, cs) => {
                        let t = Ty::Int(*w);
                        self.link_op(o, &t);
                        succs.push(*d);
                        succs.extend(cs.iter().map(|c| c.1));
                    }
                    Inst::Ret(Some((t, o))) => {
                        let t = t.clone();
                        self.link_op(o, &t)
                    }
                    Inst::Call { callee, args, normal, .. } => {
                        for (t, o) in args.iter_mut() {
                            let t = t.clone();
                            self.link_op(o, &t);
                        }
                        match callee {
                            Callee::Direct(n) => {
                                let n = n.clone();
                                *callee = Callee::T(self.target(&n));
                            }
                            Callee::Indirect(o) => self.link_op(o, &Ty::Ptr),
                            _ => {}
                        }
                        if let Some(n) = normal {
                            succs.push(*n);
                        }
                    }
                    Inst::ExtractValue(_, a, _) => self.link_agg(a),
                    Inst::InsertValue(_, t, a, e, path) => {
                        let t = t.clone();
                        self.link_op(a, &t);
                        let mut et = t;
                        for p in path.iter() {
                            et = et.elem(*p as usize);
                        }
                        self.link_op(e, &et);
                    }
                    Inst::ExtractElem(_, a, i) => {
                        self.link_agg(a);
                        self.link_op(i, &Ty::Int(64));
                    }
                    Inst::InsertElem(_, t, a, e, i) => {
                        let t = t.clone();
                        self.link_op(a, &t);
                        self.link_op(e, &t.elem(0));
                        self.link_op(i, &Ty::Int(64));
                    }
                    Inst::Shuffle(_, t, a, b, _) => {
                        let t = t.clone();
                        self.link_op(a, &t);
                        self.link_op(b, &t);
                    }
                    Inst::Freeze(_, a) => self.link_agg(a),
                    Inst::AtomicRmw(_, _, t, p, v) => {
                        let t = t.clone();
                        self.link_op(p, &Ty::Ptr);
                        self.link_op(v, &t);
                    }
                    Inst::CmpXchg(_, t, p, a, b) => {
                        let t = t.clone();
                        self.link_op(p, &Ty::Ptr);
                        self.link_op(a, &t);
                        self.link_op(b, &t);
                    }
                    _ => {}
                }
                if let Inst::Phi(d, v) = i {
                    phis.push((d, v));
                } else {
                    insts.push(i);
                }
            }
            let dead_end = matches!(insts.last(), Some(Inst::Unreachable));
            blocks.push(Block { phis, insts, succs, dead_end });
        }
        // link phi operands: the operand type is not recorded, constants carry their own type except ints
        for b in blocks.iter_mut() {
            for (_, v) in b.phis.iter_mut() {
                for (_, o) in v.iter_mut() {
                    self.link_agg(o);
                }
            }
        }
        LFunc {
            name: f.name,
            params: f.params,
            nregs: f.nregs,
            blocks,
            ret: f.ret,
            ipdom: RefCell::new(None),
            region: RefCell::new(FxMap::default()),
        }
    }
    fn link_agg(&mut self, o: &mut Op) {
        if let Op::K(k) = o {
            let t = match &**k {
                K::Int(t, _) | K::Zero(t) | K::Undef(t) | K::Agg(t, _) => t.clone(),
                K::Cast(_, _, t) => t.clone(),
                K::Bytes(_) => Ty::Array(0, Rc::new(Ty::Int(8))),
                _ => Ty::Ptr,
            };
            self.link_op(o, &t);
        }
    }

    // ---------- values ----------
    #[inline]
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.top.regs[*r as usize].clone(),
            Op::C(c) => self.konsts[*c as usize].clone(),
            Op::K(_) => unreachable!(),
        }
    }
    fn id(&mut self, v: &Val) -> Id {
        match v {
            C(v, w) => self.cx.konst(*v, *w),
            S(i) => *i,
            Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, i: Id) -> Val {
        match self.cx.is_const(i) {
            Some(k) => C(k, self.cx.w(i)),
            None => S(i),
        }
    }
    fn eval(&self, st: &State, i: Id) -> u128 {
        let m = &st.model;
        let f = |v: u32| *m.vals.get(&v).unwrap_or(&0);
        self.cx.eval(i, &f, &mut m.memo.borrow_mut())
    }
    /// Simplify under what the path already fixes.
    fn simp(&mut self, st: &State, i: Id) -> Id {
        if self.cx.is_const(i).is_some() {
            return i;
        }
        if let Some(k) = st.eqs.get(&i) {
            let w = self.cx.w(i);
            return self.cx.konst(*k, w);
        }
        if !st.fixed.is_empty() {
            let s = self.cx.support(i);
            let fx = &st.fixed;
            if s.iter().all(|v| {
                let k = (*v / 64) as usize;
                k < fx.len() && fx[k] >> (*v % 64) & 1 == 1
            }) {
                let k = self.eval(st, i);
                let w = self.cx.w(i);
                return self.cx.konst(k, w);
            }
        }
        if !st.rng.is_empty() && self.cx.w(i) == 1 {
            let (l, h) = self.cx.bounds(i, &st.rng, &mut FxMap::default());
            if l == h {
                return self.cx.konst(l, 1);
            }
        }
        i
    }
    /// What an assumed comparison says about the bounds of its sides.
    fn narrow(&mut self, st: &mut State, c: Id) {
        let n = self.cx.n(c);
        let (strict, a, b) = match n.op {
            O::Ult => (1, n.a, n.b),
            O::Ule => (0, n.a, n.b),
            O::Eq => {
                self.narrow_le(st, n.a, n.b, 0);
                (0, n.b, n.a)
            }
            O::Not if self.cx.n(n.a).op == O::Eq => {
                // not the smallest, or not the largest
                let m = self.cx.n(n.a);
                for (e, k) in [(m.a, m.b), (m.b, m.a)] {
                    if let Some(k) = self.cx.is_const(k) {
                        let (l, h) = self.cx.bounds(e, &st.rng, &mut FxMap::default());
                        if l < h && (k == l || k == h) {
                            self.bound(st, e, if k == l { (l + 1, h) } else { (l, h - 1) });
                        }
                    }
                }
                return;
            }
            _ => return,
        };
        self.narrow_le(st, a, b, strict);
    }
    fn bound(&mut self, st: &mut State, e: Id, r: (u128, u128)) {
        let n = self.cx.n(e);
        match n.op {
            O::Const => return,
            O::Concat => {
                let bw = self.cx.w(n.b);
                let (l, h) = (r.0 >> bw, r.1 >> bw);
                self.bound(st, n.a, (l, h));
                if l == h {
                    self.bound(st, n.b, (r.0 & crate::expr::ones(bw), r.1 & crate::expr::ones(bw)));
                }
            }
            O::ZExt => self.bound(st, n.a, (r.0, r.1.min(crate::expr::ones(self.cx.w(n.a))))),
            _ => {}
        }
        let o = self.cx.bounds(e, &st.rng, &mut FxMap::default());
        let r = (r.0.max(o.0), r.1.min(o.1));
        if r.0 <= r.1 && r != o {
            Rc::make_mut(&mut st.rng).insert(e, r);
        }
    }
    fn narrow_le(&mut self, st: &mut State, a: Id, b: Id, strict: u128) {
        if self.cx.w(a) < 2 {
            return;
        }
        let mut memo = FxMap::default();
        let (al, ah) = self.cx.bounds(a, &st.rng, &mut memo);
        let (bl, bh) = self.cx.bounds(b, &st.rng, &mut memo);
        if self.cx.is_const(a).is_none() && ah > bh.saturating_sub(strict) && al <= bh.saturating_sub(strict) {
            self.bound(st, a, (al, bh - strict));
        }
        if self.cx.is_const(b).is_none() && bl < al + strict && al + strict <= bh {
            self.bound(st, b, (al + strict, bh));
        }
    }
    fn slice(&mut self, st: &State, extra: Id) -> Vec<Id> {
        let mut out = vec![extra];
        let nv = self.cx.nvars as usize;
        let mut bits = vec![0u64; nv / 64 + 1];
        for v in self.cx.support(extra).iter() {
            bits[(*v / 64) as usize] |= 1 << (*v % 64);
        }
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (k, c) in st.pc.iter().enumerate() {
                if used[k] {
                    continue;
                }
                let s = self.cx.support(*c);
                if s.iter().any(|v| bits[(*v / 64) as usize] >> (*v % 64) & 1 == 1) {
                    used[k] = true;
                    out.push(*c);
                    for v in s.iter() {
                        let (a, b) = ((*v / 64) as usize, *v % 64);
                        if bits[a] >> b & 1 == 0 {
                            bits[a] |= 1 << b;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    fn query(&mut self, st: &State, extra: Id) -> R {
        if extra == Ctx::FALSE {
            return R::Unsat;
        }
        let s = self.slice(st, extra);
        if let Some(m) = self.repair(st, extra, &s) {
            return R::Sat(m);
        }
        let q0 = self.sv.st.queries;
        let r = self.sv.check(&mut self.cx, &s);
        if self.sv.st.queries != q0 && std::env::var("VSE_REP").is_ok() {
            eprintln!("rep {} {} {}", matches!(r, R::Sat(_)), st.top.f.name, self.cx.show(extra, 40));
        }
        if let R::Unknown = r {
            self.st.unknown += 1;
        }
        r
    }
    /// A satisfying assignment close to the one at hand, if one is easily found.
    fn repair(&mut self, st: &State, goal: Id, cons: &[Id]) -> Option<Rc<Vec<(u32, u128)>>> {
        if let Some(R::Unsat) = self.sv.known(cons) {
            return None;
        }
        for choice in [0, 16, 32, 1, 17, 33, 2, 3, 19, 4, 5, 8, 9, 12] {
            let cur = |i: Id| self.eval(st, i);
            let mut r = crate::repair::Repair { x: &self.cx, cur: &cur, set: FxMap::default(), choice, steps: 0 };
            if !r.make(goal, 1) || r.set.is_empty() {
                continue;
            }
            let set = r.set;
            let vals = &st.model.vals;
            let f = |v: u32| *set.get(&v).unwrap_or_else(|| vals.get(&v).unwrap_or(&0));
            let mut memo = FxMap::default();
            if cons.iter().rev().all(|k| self.cx.eval(*k, &f, &mut memo) == 1) {
                self.sv.st.guessed += 1;
                return Some(Rc::new(set.into_iter().collect()));
            }
        }
        None
    }
    fn upd_model(&self, m: &Rc<Model>, upd: &[(u32, u128)]) -> Rc<Model> {
        let mut vals = m.vals.clone();
        for (k, v) in upd {
            vals.insert(*k, *v);
        }
        Rc::new(Model { vals, memo: RefCell::new(FxMap::default()) })
    }
    fn assume(&mut self, st: &mut State, c: Id, record: bool) {
        // the state's model must already satisfy c
        if c == Ctx::TRUE {
            return;
        }
        let n = self.cx.n(c);
        if n.op == O::And && n.w == 1 {
            self.assume(st, n.a, record);
            self.assume(st, n.b, record);
            return;
        }
        if n.op == O::Not {
            let m = self.cx.n(n.a);
            if m.op == O::Or {
                let (x, y) = (self.cx.not(m.a), self.cx.not(m.b));
                self.assume(st, x, record);
                self.assume(st, y, record);
                return;
            }
        }
        if st.eqs.get(&c) == Some(&1) {
            return;
        }
        let nc = self.cx.not(c);
        self.narrow(st, c);
        let eqs = Rc::make_mut(&mut st.eqs);
        eqs.insert(c, 1);
        eqs.insert(nc, 0);
        let mut fix = |cx: &Ctx, fixed: &mut Rc<Vec<u64>>, e: Id| {
            let en = cx.n(e);
            if en.op == O::Var {
                let v = en.k as usize;
                let f = Rc::make_mut(fixed);
                while f.len() <= v / 64 {
                    f.push(0);
                }
                f[v / 64] |= 1 << (v % 64);
            }
        };
        if n.op == O::Eq {
            if let Some(k) = self.cx.is_const(n.b) {
                eqs.insert(n.a, k);
                fix(&self.cx, &mut st.fixed, n.a);
            } else if let Some(k) = self.cx.is_const(n.a) {
                eqs.insert(n.b, k);
                fix(&self.cx, &mut st.fixed, n.b);
            }
        }
        if record {
            st.pc.push(c);
        }
    }
    /// Decide a condition on the current path, forking when both outcomes are feasible.
    fn fork_on(&mut self, st: &mut State, c: Id) -> X<bool> {
        let c = self.simp(st, c);
        if let Some(k) = self.cx.is_const(c) {
            return Ok(k == 1);
        }
        let v = self.eval(st, c) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(st, other) {
            R::Unsat => self.assume(st, mine, false),
            R::Unknown => {
                self.incomplete("solver unknown");
                self.assume(st, mine, true)
            }
            R::Sat(m) => {
                self.st.forks += 1;
                let mut o = st.clone();
                o.model = self.upd_model(&st.model, &m);
                self.assume(&mut o, other, true);
                self.pending.push(o);
                self.assume(st, mine, true);
            }
        }
        Ok(v)
    }
    fn incomplete(&mut self, why: &str) {
        if self.st.incomplete.is_none() {
            self.st.incomplete = Some(why.to_string());
        }
    }
    fn concretize(&mut self, st: &mut State, e: Id) -> X<u128> {
        let e = self.simp(st, e);
        if let Some(k) = self.cx.is_const(e) {
            return Ok(k);
        }
        let v = self.eval(st, e);
        let w = self.cx.w(e);
        let k = self.cx.konst(v, w);
        let c = self.cx.eq(e, k);
        let nc = self.cx.not(c);
        match self.query(st, nc) {
            R::Unsat => self.assume(st, c, false),
            R::Unknown => {
                self.incomplete("solver unknown");
                self.assume(st, c, true)
            }
            R::Sat(m) => {
                let n = *st.enums.get(&e).unwrap_or(&0) + 1;
                if n >= self.cfg.max_enum {
                    *self.st.caps.entry(format!("enum-limit in {}", st.top.f.name)).or_insert(0) += 1;
                    self.incomplete("value enumeration limit");
                } else {
                    self.st.forks += 1;
                    let mut o = st.clone();
                    o.model = self.upd_model(&st.model, &m);
                    Rc::make_mut(&mut o.enums).insert(e, n);
                    self.assume(&mut o, nc, true);
                    self.pending.push(o);
                }
                self.assume(st, c, true);
            }
        }
        // remember e == v for other expressions of the same value
        Rc::make_mut(&mut st.eqs).insert(e, v);
        Ok(v)
    }
    fn conc_val(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            C(x, _) => Ok(*x),
            S(e) => self.concretize(st, *e),
            Agg(_) => panic!("concretize agg"),
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> u64 {
        let i = if kind == Kind::Stack && !st.free_stack.is_empty() {
            let i = st.free_stack.pop().unwrap();
            *st.tab.get_mut(i as usize).unwrap() = Slot::Live(Rc::new(Obj::new(size, kind)));
            i as usize
        } else {
            st.tab.push(Obj::new(size, kind))
        };
        ((self.dynbase as u64) + i as u64 + 1) << 32
    }
    fn obj(&mut self, st: &State, addr: u64) -> Result<(u32, Rc<Obj>), String> {
        let hi = (addr >> 32) as u32;
        if hi == 0 {
            return Err("null or dangling pointer".into());
        }
        let i = hi - 1;
        if i < self.dynbase {
            if (i as usize) < self.m.globals.len() {
                if let Some(o) = st.glob.get(&i) {
                    return Ok((i, o.clone()));
                }
                return Ok((i, self.ginit(i as usize)));
            }
            return Err("access to function memory".into());
        }
        match st.tab.get((i - self.dynbase) as usize) {
            Some(Slot::Live(o)) => Ok((i, o.clone())),
            Some(Slot::Freed) => Err("use after free".into()),
            None => Err("wild pointer".into()),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, i: u32) -> &'a mut Obj {
        if i < self.dynbase {
            let init = self.ginit(i as usize);
            let g = Rc::make_mut(&mut st.glob);
            return Rc::make_mut(g.entry(i).or_insert(init));
        }
        match st.tab.get_mut((i - self.dynbase) as usize) {
            Some(Slot::Live(o)) => Rc::make_mut(o),
            _ => unreachable!(),
        }
    }
    /// Resolve an address for an access of n bytes.
    fn resolve(&mut self, st: &mut State, a: &Val, n: u64, write: bool) -> X<(u32, Rc<Obj>, Result<u64, (Id, u64, u64, u64)>)> {
        let e = match a {
            C(v, _) => {
                return match self.obj(st, *v as u64) {
                    Ok((i, o)) => {
                        let off = *v as u64 & 0xffff_ffff;
                        if off + n > o.size {
                            return Err(self.violation(st, "memory", &format!("out-of-bounds {} of {} bytes at offset {} of {}-byte object", if write { "write" } else { "read" }, n, off, o.size)));
                        }
                        if write && o.kind == Kind::Const {
                            return Err(self.violation(st, "memory", "write to constant"));
                        }
                        Ok((i, o, Ok(off)))
                    }
                    Err(m) => Err(self.violation(st, "memory", &m)),
                };
            }
            S(e) => *e,
            _ => panic!("agg address"),
        };
        let e = self.simp(st, e);
        if let Some(k) = self.cx.is_const(e) {
            return self.resolve(st, &C(k, 64), n, write);
        }
        let v = self.eval(st, e) as u64;
        let (i, o) = match self.obj(st, v) {
            Ok(x) => x,
            Err(m) => return Err(self.violation(st, "memory", &m)),
        };
        if o.size < n {
            return Err(self.violation(st, "memory", "out-of-bounds access"));
        }
        let base = self.cx.konst((v & !0xffff_ffff) as u128, 64);
        let off = self.cx.sub(e, base);
        let lim = (o.size - n) as u128;
        let limk = self.cx.konst(lim, 64);
        let inb = self.cx.ule(off, limk);
        if !self.fork_on(st, inb)? {
            return Err(self.violation(st, "memory", &format!("out-of-bounds {} of {} bytes in {}-byte object", if write { "write" } else { "read" }, n, o.size)));
        }
        if write && o.kind == Kind::Const {
            return Err(self.violation(st, "memory", "write to constant"));
        }
        let off = self.simp(st, off);
        if let Some(k) = self.cx.is_const(off) {
            return Ok((i, o, Ok(k as u64)));
        }
        let mut lo = self.cx.umin[off as usize];
        let mut hi = self.cx.umax[off as usize].min(lim);
        let tz = self.tz(off).min(20);
        let stride = 1u128 << tz;
        lo = (lo + stride - 1) / stride * stride;
        hi = hi / stride * stride;
        if (hi - lo) / stride > 64 {
            // tighten with the solver
            let (l2, h2) = self.bounds(st, off, lo, hi);
            lo = (l2 + stride - 1) / stride * stride;
            hi = h2 / stride * stride;
        }
        if (hi.saturating_sub(lo)) / stride + 1 > self.cfg.max_mux as u128 {
            let v = self.concretize(st, off)? as u64;
            return Ok((i, o, Ok(v)));
        }
        if lo == hi {
            return Ok((i, o, Ok(lo as u64)));
        }
        Ok((i, o, Err((off, lo as u64, hi as u64, stride as u64))))
    }
    fn bounds(&mut self, st: &State, e: Id, lo: u128, hi: u128) -> (u128, u128) {
        let w = self.cx.w(e);
        let cur = self.eval(st, e);
        let (mut a, mut b) = (lo, cur.min(hi)); // smallest
        let mut tries = 0;
        while a < b && tries < 40 {
            tries += 1;
            let mid = a + (b - a) / 2;
            let k = self.cx.konst(mid, w);
            let c = self.cx.ule(e, k);
            match self.query(st, c) {
                R::Sat(m) => {
                    let mm = self.upd_model(&st.model, &m);
                    let f = |v: u32| *mm.vals.get(&v).unwrap_or(&0);
                    b = self.cx.eval(e, &f, &mut mm.memo.borrow_mut()).min(mid);
                }
                R::Unsat => a = mid + 1,
                R::Unknown => break,
            }
        }
        let l = a;
        let (mut a, mut b) = (cur.max(lo).min(hi), hi);
        while a < b && tries < 80 {
            tries += 1;
            let mid = a + (b - a + 1) / 2;
            let k = self.cx.konst(mid, w);
            let c = self.cx.ule(k, e);
            match self.query(st, c) {
                R::Sat(m) => {
                    let mm = self.upd_model(&st.model, &m);
                    let f = |v: u32| *mm.vals.get(&v).unwrap_or(&0);
                    a = self.cx.eval(e, &f, &mut mm.memo.borrow_mut()).max(mid);
                }
                R::Unsat => b = mid - 1,
                R::Unknown => break,
            }
        }
        (l, b)
    }
    /// Number of known-zero low bits.
    fn tz(&self, i: Id) -> u32 {
        let n = self.cx.n(i);
        let w = n.w as u32;
        match n.op {
            O::Const => {
                if n.k == 0 {
                    w
                } else {
                    n.k.trailing_zeros()
                }
            }
            O::Shl => match self.cx.is_const(n.b) {
                Some(k) => (self.tz(n.a) + k as u32).min(w),
                None => 0,
            },
            O::Mul => (self.tz(n.a) + self.tz(n.b)).min(w),
            O::Add | O::Sub | O::Or | O::Xor => self.tz(n.a).min(self.tz(n.b)),
            O::And => self.tz(n.a).max(self.tz(n.b)),
            O::Concat => {
                let l = self.cx.w(n.b);
                let t = self.tz(n.b);
                if t == l {
                    l + self.tz(n.a)
                } else {
                    t
                }
            }
            O::ZExt | O::SExt => {
                let t = self.tz(n.a);
                if t == self.cx.w(n.a) {
                    w
                } else {
                    t
                }
            }
            O::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    fn bid(&mut self, b: B) -> Id {
        match b {
            B::C(v) => self.cx.konst(v as u128, 8),
            B::S(i) => i,
        }
    }
    fn read_at(&mut self, st: &State, o: &Obj, off: u64, n: u64, w: u32) -> Val {
        if n <= 16 {
            if let Some(v) = o.read_c(off, n as usize) {
                return C(mask(v, w), w);
            }
        }
        let mut r: Option<Id> = None;
        for k in (0..n).rev() {
            let b = match o.get(off + k) {
                B::C(v) => self.cx.konst(v as u128, 8),
                B::S(i) => self.simp(st, i),
            };
            r = Some(match r {
                None => b,
                Some(h) => self.cx.concat(h, b),
            });
        }
        let r = r.unwrap();
        let r = if self.cx.w(r) > w { self.cx.extract(r, 0, w) } else { r };
        let r = self.simp(st, r);
        self.val(r)
    }
    fn load(&mut self, st: &mut State, a: &Val, t: &Ty) -> X<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size();
                let w = w_of(t);
                let (_, o, loc) = self.resolve(st, a, n, false)?;
                match loc {
                    Ok(off) => Ok(self.read_at(st, &o, off, n, w)),
                    Err((oe, lo, hi, stride)) => {
                        let cnt = (hi - lo) / stride + 1;
                        let mut vals = Vec::with_capacity(cnt as usize);
                        for k in 0..cnt {
                            let v = self.read_at(st, &o, lo + k * stride, n, w);
                            vals.push(self.id(&v));
                        }
                        let r = self.mux(oe, lo, stride, &vals);
                        let r = self.simp(st, r);
                        Ok(self.val(r))
                    }
                }
            }
            _ => {
                let sz = t.store_size();
                if sz == 0 {
                    return Ok(self.zero(t));
                }
                if let Ty::Vector(n, et) = t {
                    if et.bits() % 8 != 0 {
                        let v = self.load(st, a, &Ty::Int((*n as u32) * et.bits()))?;
                        return Ok(self.from_bits(v, t));
                    }
                }
                // make sure a symbolic address is resolved once
                let (i, _, loc) = self.resolve(st, a, sz, false)?;
                let off = match loc {
                    Ok(off) => off,
                    Err((oe, ..)) => self.concretize(st, oe)? as u64,
                };
                let base = ((i as u64 + 1) << 32) + off;
                let mut v = vec![];
                for k in 0..t.count() {
                    let et = t.elem(k);
                    let x = self.load(st, &C((base + t.field_offset(k)) as u128, 64), &et)?;
                    v.push(x);
                }
                Ok(Agg(Rc::new(v)))
            }
        }
    }
    fn mux(&mut self, oe: Id, lo: u64, stride: u64, vals: &[Id]) -> Id {
        if vals.len() == 1 || vals.iter().all(|v| *v == vals[0]) {
            return vals[0];
        }
        let mid = vals.len() / 2;
        let l = self.mux(oe, lo, stride, &vals[..mid]);
        let h = self.mux(oe, lo + mid as u64 * stride, stride, &vals[mid..]);
        let k = self.cx.konst((lo + mid as u64 * stride) as u128, 64);
        let c = self.cx.ult(oe, k);
        self.cx.ite(c, l, h)
    }
    fn store(&mut self, st: &mut State, a: &Val, v: &Val, t: &Ty) -> X<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size();
                let (i, _o, loc) = self.resolve(st, a, n, true)?;
                drop(_o);
                match loc {
                    Ok(off) => {
                        match v {
                            C(x, _) => self.obj_mut(st, i).write_c(off, n as usize, *x),
                            S(e) => {
                                let e = self.simp(st, *e);
                                let full = if self.cx.w(e) < n as u32 * 8 { self.cx.zext(e, n as u32 * 8) } else { e };
                                for k in 0..n {
                                    let b = self.cx.extract(full, k as u32 * 8, 8);
                                    let b = match self.cx.is_const(b) {
                                        Some(c) => B::C(c as u8),
                                        None => B::S(b),
                                    };
                                    self.obj_mut(st, i).set(off + k, b);
                                }
                            }
                            _ => panic!("store agg as scalar"),
                        }
                        Ok(())
                    }
                    Err((oe, lo, hi, stride)) => {
                        let e = self.id(v);
                        let full = if self.cx.w(e) < n as u32 * 8 { self.cx.zext(e, n as u32 * 8) } else { e };
                        let bs: Vec<Id> = (0..n).map(|k| self.cx.extract(full, k as u32 * 8, 8)).collect();
                        let mut at = lo;
                        // overlapping candidates (stride < n) are still right: each candidate address is exclusive
                        let snap = self.obj_mut(st, i).clone();
                        let mut upd: BTreeMap<u64, Id> = BTreeMap::new();
                        while at <= hi {
                            let k = self.cx.konst(at as u128, 64);
                            let c = self.cx.eq(oe, k);
                            for j in 0..n {
                                let old = match upd.get(&(at + j)) {
                                    Some(x) => *x,
                                    None => self.bid(snap.get(at + j)),
                                };
                                let nv = self.cx.ite(c, bs[j as usize], old);
                                upd.insert(at + j, nv);
                            }
                            at += stride;
                        }
                        for (p, nv) in upd {
                            let b = match self.cx.is_const(nv) {
                                Some(c) => B::C(c as u8),
                                None => B::S(nv),
                            };
                            self.obj_mut(st, i).set(p, b);
                        }
                        Ok(())
                    }
                }
            }
            _ => {
                if t.store_size() == 0 {
                    return Ok(());
                }
                if let Ty::Vector(n, et) = t {
                    if et.bits() % 8 != 0 {
                        let b = self.to_bits(v);
                        return self.store(st, a, &b, &Ty::Int(*n as u32 * et.bits()));
                    }
                }
                let (i, _, loc) = self.resolve(st, a, t.store_size(), true)?;
                let off = match loc {
                    Ok(off) => off,
                    Err((oe, ..)) => self.concretize(st, oe)? as u64,
                };
                let base = ((i as u64 + 1) << 32) + off;
                if let Agg(vs) = v {
                    for (k, x) in vs.iter().enumerate() {
                        let et = t.elem(k);
                        self.store(st, &C((base + t.field_offset(k)) as u128, 64), x, &et)?;
                    }
                } else {
                    panic!("store scalar as agg")
                }
                Ok(())
            }
        }
    }
    fn to_bits(&mut self, v: &Val) -> Val {
        match v {
            Agg(vs) => {
                let mut r: Option<Id> = None;
                for x in vs.iter().rev() {
                    let x = self.to_bits(x);
                    let i = self.id(&x);
                    r = Some(match r {
                        None => i,
                        Some(h) => self.cx.concat(h, i),
                    });
                }
                self.val(r.unwrap())
            }
            x => x.clone(),
        }
    }
    fn from_bits(&mut self, v: Val, t: &Ty) -> Val {
        match t {
            Ty::Vector(n, et) => {
                let w = et.bits();
                let i = self.id(&v);
                let mut o = vec![];
                for k in 0..*n {
                    let x = self.cx.extract(i, k as u32 * w, w);
                    o.push(self.val(x));
                }
                Agg(Rc::new(o))
            }
            _ => v,
        }
    }
    /// Concrete object and offset for a bulk operation of n bytes.
    fn bulk(&mut self, st: &mut State, a: &Val, n: u64, write: bool) -> X<(u32, Rc<Obj>, u64)> {
        let (i, o, loc) = self.resolve(st, a, n, write)?;
        let off = match loc {
            Ok(o) => o,
            Err((oe, ..)) => self.concretize(st, oe)? as u64,
        };
        Ok((i, o, off))
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> X<()> {
        let n = self.conc_val(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let (_, so, soff) = self.bulk(st, s, n, false)?;
        let (di, _do, doff) = self.bulk(st, d, n, true)?;
        drop(_do);
        let dst = self.obj_mut(st, di);
        mem::copy(dst, doff, &so, soff, n);
        Ok(())
    }

    // ---------- violations ----------
    fn input(&self, st: &State) -> Vec<u8> {
        (0..st.nvars).map(|v| *st.model.vals.get(&v).unwrap_or(&0) as u8).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) -> End {
        let mut trace = vec![st.top.f.name.clone()];
        for f in st.stack.iter().rev() {
            trace.push(f.f.name.clone());
        }
        let key = format!("{}|{}|{}", kind, msg, trace.iter().take(3).cloned().collect::<Vec<_>>().join("<"));
        if self.viol_keys.insert(key) {
            self.viols.push(Violation {
                kind: kind.into(),
                msg: msg.into(),
                func: st.top.f.name.clone(),
                trace,
                input: self.input(st),
            });
            if self.viols.len() >= self.cfg.max_viol {
                self.stop_now = true;
            }
        }
        End::Violation
    }

    // ---------- driver ----------
    pub fn run_entry(&mut self, entry: &str) {
        let t = self.target(entry);
        let fi = match self.targets[t as usize] {
            Target::Fn(i) => i,
            _ => panic!("entry {} not found", entry),
        };
        let f = self.func(fi);
        let top = Frame {
            regs: vec![C(0, 64); f.nregs],
            f,
            block: 0,
            prev: NONE,
            ip: 0,
            allocas: vec![],
            dst: None,
            normal: None,
        };
        let st = State {
            top,
            stack: vec![],
            tab: Table::default(),
            glob: Rc::new(FxMap::default()),
            free_stack: vec![],
            pc: vec![],
            eqs: Rc::new(FxMap::default()),
            rng: Rc::new(FxMap::default()),
            fixed: Rc::new(vec![]),
            model: Rc::new(Model { vals: FxMap::default(), memo: RefCell::new(FxMap::default()) }),
            enums: Rc::new(FxMap::default()),
            nvars: 0,
            steps: 0,
            merge: self.cfg.merge,
            ended: None,
            allocated: 0,
        };
        self.run(vec![st], None);
    }

    fn run(&mut self, init: Vec<State>, stop: Option<(usize, u32)>) -> Vec<State> {
        let saved = std::mem::take(&mut self.pending);
        let mut work = init;
        let mut arrived = vec![];
        while let Some(mut st) = work.pop() {
            if self.stop_now {
                break;
            }
            match self.run_state(&mut st, stop) {
                Ok(()) => arrived.push(st),
                Err(e) => {
                    match e {
                        End::Done => {
                            self.st.paths_done += 1;
                            if self.st.samples.len() < 5 {
                                let s = self.input(&st);
                                self.st.samples.push(s);
                            }
                        }
                        End::Violation => self.st.paths_viol += 1,
                        End::Assume => self.st.paths_assume += 1,
                        End::Cap(m) => *self.st.caps.entry(m).or_insert(0) += 1,
                        End::Unsupported(m) => {
                            *self.st.unsupported.entry(format!("{} in {}", m, st.top.f.name)).or_insert(0) += 1;
                            self.incomplete("unsupported construct");
                        }
                    }
                    let p = self.st.paths_done + self.st.paths_viol;
                    if p >= self.cfg.max_paths {
                        self.incomplete("path limit");
                        self.stop_now = true;
                    }
                }
            }
            work.append(&mut self.pending);
        }
        self.pending = saved;
        arrived
    }

    /// Ok = arrived at the stop point.
    fn run_state(&mut self, st: &mut State, stop: Option<(usize, u32)>) -> X<()> {
        loop {
            let f = st.top.f.clone();
            loop {
                let inst = &f.blocks[st.top.block as usize].insts[st.top.ip as usize];
                st.steps += 1;
                self.st.insts += 1;
                if self.st.insts & 0xfff == 0 {
                    if Instant::now() > self.cfg.deadline {
                        self.incomplete("time limit");
                        self.stop_now = true;
                    }
                    if self.stop_now {
                        return Err(End::Cap("stopped".into()));
                    }
                }
                if st.steps > self.cfg.max_steps {
                    return Err(self.violation(st, "hang", "step limit exceeded"));
                }
                if self.cfg.trace {
                    eprintln!("{} b{} i{} {:?}", short(&f.name), st.top.block, st.top.ip, inst);
                }
                let fl = self.exec(st, &f, inst)?;
                match fl {
                    Flow::Next => st.top.ip += 1,
                    Flow::Jumped => {
                        if let Some((d, b)) = stop {
                            if st.stack.len() == d && st.top.block == b {
                                return Ok(());
                            }
                        }
                    }
                    Flow::Frame => {
                        if let Some((d, b)) = stop {
                            // an invoke returning may land on the merge block
                            if st.stack.len() == d && st.top.block == b && st.top.ip == 0 {
                                return Ok(());
                            }
                        }
                        break;
                    }
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, f: &LFunc, t: u32) {
        let cur = st.top.block;
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, v) in b.phis.iter() {
                let (_, o) = v.iter().find(|(p, _)| *p == cur).expect("phi pred");
                vals.push((*d, self.op(st, o)));
            }
            for (d, v) in vals {
                st.top.regs[d as usize] = v;
            }
        }
        st.top.prev = cur;
        st.top.block = t;
        st.top.ip = 0;
        if let Some(e) = self.total_blocks.get_mut(&f.name) {
            e.1.insert(t);
        }
    }

    fn branch(&mut self, st: &mut State, f: &Rc<LFunc>, opts: Vec<(Id, u32)>) -> X<Flow> {
        // opts: mutually exclusive, exhaustive conditions
        let mut taken = None;
        let mut feas: Vec<(Id, u32, Option<Rc<Vec<(u32, u128)>>>)> = vec![];
        for (c, t) in opts {
            if c == Ctx::FALSE {
                continue;
            }
            if self.eval(st, c) == 1 && taken.is_none() {
                taken = Some((c, t));
                continue;
            }
            match self.query(st, c) {
                R::Unsat => {}
                R::Unknown => self.incomplete("solver unknown"),
                R::Sat(m) => feas.push((c, t, Some(m))),
            }
        }
        let (c, t) = taken.expect("no branch taken under model");
        if feas.is_empty() {
            self.assume(st, c, false);
            self.jump(st, f, t);
            return Ok(Flow::Jumped);
        }
        self.st.branches_symbolic += 1;
        let mp = if st.merge { self.merge_point(f, st.top.block) } else { NONE };
        if mp != NONE {
            let base_len = st.pc.len();
            let base_eqs = (st.eqs.clone(), st.rng.clone());
            let base_fixed = st.fixed.clone();
            let depth = st.stack.len();
            let mut states = vec![];
            let mut arrived: Vec<State> = vec![];
            for (c2, t2, m) in feas.into_iter() {
                let mut o = st.clone();
                o.model = self.upd_model(&st.model, &m.unwrap());
                self.assume(&mut o, c2, true);
                self.jump(&mut o, f, t2);
                if t2 == mp {
                    arrived.push(o)
                } else {
                    states.push(o);
                }
            }
            let mut me = st.clone();
            self.assume(&mut me, c, true);
            self.jump(&mut me, f, t);
            if t == mp {
                arrived.push(me)
            } else {
                states.push(me);
            }
            let mut more = self.run(states, Some((depth, mp)));
            arrived.append(&mut more);
            if arrived.is_empty() {
                return Err(End::Cap("merged-away".into()));
            }
            let mut out: Vec<State> = vec![];
            'next: for a in arrived {
                for b in out.iter_mut() {
                    if let Some(m) = self.merge(b, &a, base_len, &base_eqs, &base_fixed) {
                        *b = m;
                        self.st.merges += 1;
                        continue 'next;
                    }
                }
                out.push(a);
            }
            let first = out.pop().unwrap();
            self.pending.append(&mut out);
            *st = first;
            return Ok(Flow::Jumped);
        }
        for (c2, t2, m) in feas.into_iter() {
            self.st.forks += 1;
            let mut o = st.clone();
            o.model = self.upd_model(&st.model, &m.unwrap());
            self.assume(&mut o, c2, true);
            self.jump(&mut o, f, t2);
            self.pending.push(o);
        }
        self.assume(st, c, true);
        self.jump(st, f, t);
        Ok(Flow::Jumped)
    }

    // ---------- merging ----------
    fn ipdoms(&self, f: &LFunc) -> Rc<Vec<u32>> {
        if let Some(v) = &*f.ipdom.borrow() {
            return v.clone();
        }
        let n = f.blocks.len();
        // exit node = n
        let mut succ: Vec<Vec<u32>> = vec![];
        let mut alive = vec![true; n];
        // blocks from which only dead ends are reachable are ignored
        let mut good = vec![false; n];
        loop {
            let mut ch = false;
            for b in 0..n {
                if good[b] {
                    continue;
                }
                let is_ret = matches!(f.blocks[b].insts.last(), Some(Inst::Ret(_)));
                if is_ret || f.blocks[b].succs.iter().any(|s| good[*s as usize]) {
                    good[b] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for b in 0..n {
            alive[b] = good[b];
            let mut s: Vec<u32> = f.blocks[b].succs.iter().cloned().filter(|s| good[*s as usize]).collect();
            if matches!(f.blocks[b].insts.last(), Some(Inst::Ret(_))) {
                s.push(n as u32);
            }
            s.sort();
            s.dedup();
            succ.push(s);
        }
        // reverse post order on the reverse graph
        let mut pred: Vec<Vec<u32>> = vec![vec![]; n + 1];
        for b in 0..n {
            if alive[b] {
                for s in &succ[b] {
                    pred[*s as usize].push(b as u32);
                }
            }
        }
        let mut order = vec![];
        let mut seen = vec![false; n + 1];
        let mut stack: Vec<(u32, usize)> = vec![(n as u32, 0)];
        seen[n] = true;
        while let Some((b, i)) = stack.pop() {
            if i < pred[b as usize].len() {
                stack.push((b, i + 1));
                let p = pred[b as usize][i];
                if !seen[p as usize] {
                    seen[p as usize] = true;
                    stack.push((p, 0));
                }
            } else {
                order.push(b);
            }
        }
        let mut num = vec![0usize; n + 1];
        for (i, b) in order.iter().enumerate() {
            num[*b as usize] = i;
        }
        let mut idom = vec![NONE; n + 1];
        idom[n] = n as u32;
        loop {
            let mut ch = false;
            for b in order.iter().rev() {
                let b = *b as usize;
                if b == n {
                    continue;
                }
                let mut nd = NONE;
                for s in &succ[b] {
                    if idom[*s as usize] == NONE {
                        continue;
                    }
                    if nd == NONE {
                        nd = *s;
                    } else {
                        let (mut x, mut y) = (nd, *s);
                        while x != y {
                            while num[x as usize] < num[y as usize] {
                                x = idom[x as usize];
                            }
                            while num[y as usize] < num[x as usize] {
                                y = idom[y as usize];
                            }
                        }
                        nd = x;
                    }
                }
                if nd != NONE && idom[b] != nd {
                    idom[b] = nd;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let r = Rc::new(idom);
        *f.ipdom.borrow_mut() = Some(r.clone());
        r
    }
    fn merge_point(&mut self, f: &Rc<LFunc>, b: u32) -> u32 {
        if let Some(r) = f.region.borrow().get(&b) {
            return *r;
        }
        let d = self.ipdoms(f);
        let p = d[b as usize];
        let r = if p == NONE || p as usize >= f.blocks.len() { NONE } else { self.region_ok(f, b, p) };
        f.region.borrow_mut().insert(b, r);
        r
    }
    fn region_ok(&mut self, f: &Rc<LFunc>, b: u32, p: u32) -> u32 {
        let mut seen = BTreeSet::new();
        let mut stack: Vec<u32> = f.blocks[b as usize].succs.clone();
        while let Some(x) = stack.pop() {
            if x == p || !seen.insert(x) {
                continue;
            }
            if x == b || seen.len() > 40 {
                return NONE;
            }
            if !self.block_ok(f, x, 0) {
                return NONE;
            }
            stack.extend(f.blocks[x as usize].succs.iter());
        }
        // acyclic?
        if cyclic(f, &seen) {
            return NONE;
        }
        p
    }
    fn block_ok(&mut self, f: &Rc<LFunc>, x: u32, depth: u32) -> bool {
        if f.blocks[x as usize].dead_end {
            return true;
        }
        for i in 0..f.blocks[x as usize].insts.len() {
            let c = match &f.blocks[x as usize].insts[i] {
                Inst::Call { callee, .. } => callee.clone(),
                Inst::Unsupported(_) | Inst::Alloca(..) => return false,
                _ => continue,
            };
            match c {
                Callee::T(t) => match self.targets[t as usize].clone() {
                    Target::Bi(n) => {
                        if !(n.starts_with("llvm.") && !n.starts_with("llvm.mem")) && !is_panic(&n) {
                            return false;
                        }
                    }
                    Target::Fn(i) => {
                        if depth > 4 {
                            return false;
                        }
                        let n = self.func_names[i].clone();
                        let ok = match self.mergeable.get(&n) {
                            Some(v) => *v,
                            None => {
                                self.mergeable.insert(n.clone(), false);
                                let g = self.func(i);
                                let all: BTreeSet<u32> = (0..g.blocks.len() as u32).collect();
                                let mut ok = g.blocks.len() <= 40 && !cyclic(&g, &all);
                                for k in 0..g.blocks.len() as u32 {
                                    ok = ok && self.block_ok(&g, k, depth + 1);
                                }
                                self.mergeable.insert(n, ok);
                                ok
                            }
                        };
                        if !ok {
                            return false;
                        }
                    }
                },
                Callee::Asm(_) => {}
                _ => return false,
            }
        }
        true
    }
    fn merge_val(&mut self, g: Id, a: &Val, b: &Val) -> Option<Val> {
        match (a, b) {
            (C(x, w), C(y, v)) if x == y && w == v => return Some(a.clone()),
            (S(x), S(y)) if x == y => return Some(a.clone()),
            (Agg(x), Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Some(a.clone());
                }
                if x.len() != y.len() {
                    return None;
                }
                let mut o = vec![];
                for k in 0..x.len() {
                    o.push(self.merge_val(g, &x[k], &y[k])?);
                }
                return Some(Agg(Rc::new(o)));
            }
            (Agg(_), _) | (_, Agg(_)) => return None,
            _ => {}
        }
        let (x, y) = (self.id(a), self.id(b));
        if self.cx.w(x) != self.cx.w(y) {
            return None;
        }
        let r = self.cx.ite(g, x, y);
        Some(self.val(r))
    }
    fn merge(&mut self, a: &State, b: &State, base: usize, eqs: &(Rc<FxMap<Id, u128>>, Rc<FxMap<Id, (u128, u128)>>), fixed: &Rc<Vec<u64>>) -> Option<State> {
        if a.top.block != b.top.block || a.top.ip != b.top.ip || a.stack.len() != b.stack.len() || a.tab.n != b.tab.n || a.nvars != b.nvars || a.free_stack != b.free_stack || a.top.allocas != b.top.allocas {
            return None;
        }
        for (x, y) in a.stack.iter().zip(b.stack.iter()) {
            if !Rc::ptr_eq(x, y) {
                return None;
            }
        }
        let conj = |cx: &mut Ctx, v: &[Id]| {
            let mut r = Ctx::TRUE;
            for c in v {
                r = cx.and(r, *c);
            }
            r
        };
        let ga = conj(&mut self.cx, &a.pc[base..]);
        let gb = conj(&mut self.cx, &b.pc[base..]);
        let mut out = a.clone();
        out.pc.truncate(base);
        out.eqs = eqs.0.clone();
        out.rng = eqs.1.clone();
        out.fixed = fixed.clone();
        out.steps = a.steps.max(b.steps);
        for r in 0..a.top.regs.len() {
            match self.merge_val(ga, &a.top.regs[r], &b.top.regs[r]) {
                Some(v) => out.top.regs[r] = v,
                // registers whose shapes differ hold stale values on one side: not live at the merge
                None => out.top.regs[r] = C(0, 64),
            }
        }
        // dynamic memory
        let mut ci = 0;
        while ci * Table::CHUNK < a.tab.n {
            if !a.tab.chunk_eq(&b.tab, ci) {
                for i in ci * Table::CHUNK..((ci + 1) * Table::CHUNK).min(a.tab.n) {
                    match (a.tab.get(i).unwrap(), b.tab.get(i).unwrap()) {
                        (Slot::Live(x), Slot::Live(y)) => {
                            if Rc::ptr_eq(x, y) {
                                continue;
                            }
                            let m = self.merge_obj(ga, x, y)?;
                            if let Some(m) = m {
                                *out.tab.get_mut(i).unwrap() = Slot::Live(Rc::new(m));
                            }
                        }
                        (Slot::Freed, Slot::Freed) => {}
                        _ => return None,
                    }
                }
            }
            ci += 1;
        }
        if !Rc::ptr_eq(&a.glob, &b.glob) {
            let mut keys: BTreeSet<u32> = a.glob.keys().cloned().collect();
            keys.extend(b.glob.keys().cloned());
            for k in keys {
                let x = match a.glob.get(&k) {
                    Some(x) => x.clone(),
                    None => self.ginit(k as usize),
                };
                let y = match b.glob.get(&k) {
                    Some(x) => x.clone(),
                    None => self.ginit(k as usize),
                };
                if Rc::ptr_eq(&x, &y) {
                    continue;
                }
                if let Some(m) = self.merge_obj(ga, &x, &y)? {
                    Rc::make_mut(&mut out.glob).insert(k, Rc::new(m));
                }
            }
        }
        let g = self.cx.or(ga, gb);
        self.assume(&mut out, g, true);
        Some(out)
    }
    fn merge_obj(&mut self, g: Id, x: &Obj, y: &Obj) -> Option<Option<Obj>> {
        if x.size != y.size || x.kind != y.kind {
            return None;
        }
        let mut out: Option<Obj> = None;
        for p in 0..x.pages.len() {
            let same = match (&x.pages[p], &y.pages[p]) {
                (None, None) => true,
                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                _ => false,
            };
            if same {
                continue;
            }
            for k in 0..mem::PG {
                let off = (p * mem::PG + k) as u64;
                if off >= x.size {
                    break;
                }
                let (a, b) = (x.get(off), y.get(off));
                if a == b {
                    continue;
                }
                let (ia, ib) = (self.bid(a), self.bid(b));
                let r = self.cx.ite(g, ia, ib);
                let v = match self.cx.is_const(r) {
                    Some(c) => B::C(c as u8),
                    None => B::S(r),
                };
                if out.is_none() {
                    out = Some(x.clone());
                }
                out.as_mut().unwrap().set(off, v);
            }
        }
        Some(out)
    }

    // ---------- instructions ----------
    fn bin1(&mut self, st: &mut State, op: Bin, w: u32, a: Val, b: Val) -> X<Val> {
        if let (C(x, _), C(y, _)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx(x, w) >> y.min(w as u128 - 1)) as u128,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(self.violation(st, "panic", "division by zero"));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u128,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u128,
                    }
                }
            };
            return Ok(C(mask(r, w), w));
        }
        let (x, y) = (self.id(&a), self.id(&b));
        let r = match op {
            Bin::Add => self.cx.add(x, y),
            Bin::Sub => self.cx.sub(x, y),
            Bin::Mul => self.cx.mul(x, y),
            Bin::And => self.cx.and(x, y),
            Bin::Or => self.cx.or(x, y),
            Bin::Xor => self.cx.xor(x, y),
            Bin::Shl => self.cx.shl(x, y),
            Bin::LShr => self.cx.lshr(x, y),
            Bin::AShr => self.cx.ashr(x, y),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                let z = self.cx.konst(0, w);
                let e = self.cx.eq(y, z);
                if self.fork_on(st, e)? {
                    return Err(self.violation(st, "panic", "division by zero"));
                }
                match op {
                    Bin::UDiv => self.cx.udiv(x, y),
                    Bin::URem => self.cx.urem(x, y),
                    Bin::SDiv => self.cx.sdiv(x, y),
                    _ => self.cx.srem(x, y),
                }
            }
        };
        Ok(self.val(r))
    }
    fn icmp1(&mut self, p: Pred, a: &Val, b: &Val) -> Val {
        if let (C(x, w), C(y, _)) = (a, b) {
            let (x, y, w) = (*x, *y, *w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return C(r as u128, 1);
        }
        let (x, y) = (self.id(a), self.id(b));
        let r = match p {
            Pred::Eq => self.cx.eq(x, y),
            Pred::Ne => {
                let e = self.cx.eq(x, y);
                self.cx.not(e)
            }
            Pred::Ugt => self.cx.ult(y, x),
            Pred::Uge => self.cx.ule(y, x),
            Pred::Ult => self.cx.ult(x, y),
            Pred::Ule => self.cx.ule(x, y),
            Pred::Sgt => self.cx.slt(y, x),
            Pred::Sge => self.cx.sle(y, x),
            Pred::Slt => self.cx.slt(x, y),
            Pred::Sle => self.cx.sle(x, y),
        };
        self.val(r)
    }
    fn select(&mut self, c: Id, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Agg(x), Agg(y)) => Agg(Rc::new((0..x.len()).map(|k| self.select(c, &x[k], &y[k])).collect())),
            _ => {
                let (x, y) = (self.id(a), self.id(b));
                let r = self.cx.ite(c, x, y);
                self.val(r)
            }
        }
    }
    fn cast1(&mut self, c: Cast, v: Val, w: u32) -> Val {
        match v {
            C(x, vw) => match c {
                Cast::SExt => C(mask(sx(x, vw) as u128, w), w),
                _ => C(mask(x, w), w),
            },
            S(i) => {
                let vw = self.cx.w(i);
                let r = if w < vw {
                    self.cx.extract(i, 0, w)
                } else if c == Cast::SExt {
                    self.cx.sext(i, w)
                } else {
                    self.cx.zext(i, w)
                };
                self.val(r)
            }
            Agg(_) => panic!("cast agg"),
        }
    }

    fn exec(&mut self, st: &mut State, f: &Rc<LFunc>, inst: &Inst) -> X<Flow> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.top.regs[*$d as usize] = v;
                Ok(Flow::Next)
            }};
        }
        match inst {
            Inst::Bin(d, op, t, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let (Agg(x), Agg(y)) = (&x, &y) {
                    let w = t.elem(0).bits();
                    let mut o = vec![];
                    for k in 0..x.len() {
                        o.push(self.bin1(st, *op, w, x[k].clone(), y[k].clone())?);
                    }
                    return set!(d, Agg(Rc::new(o)));
                }
                let w = w_of(t);
                set!(d, self.bin1(st, *op, w, x, y)?)
            }
            Inst::ICmp(d, p, _, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let (Agg(x), Agg(y)) = (&x, &y) {
                    let o = (0..x.len()).map(|k| self.icmp1(*p, &x[k], &y[k])).collect();
                    return set!(d, Agg(Rc::new(o)));
                }
                set!(d, self.icmp1(*p, &x, &y))
            }
            Inst::Cast(d, c, st_ty, a, dt) => {
                let v = self.op(st, a);
                if *c == Cast::BitCast {
                    let b = self.to_bits(&v);
                    return set!(d, self.from_bits(b, dt));
                }
                if let (Agg(x), Ty::Vector(_, et)) = (&v, dt) {
                    let w = et.bits();
                    let o = x.iter().map(|e| self.cast1(*c, e.clone(), w)).collect();
                    return set!(d, Agg(Rc::new(o)));
                }
                let _ = st_ty;
                let w = w_of(dt);
                set!(d, self.cast1(*c, v, w))
            }
            Inst::Select(d, _, _, c, a, b) => {
                let c = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                match &c {
                    C(1, _) => set!(d, x),
                    C(_, _) => set!(d, y),
                    S(i) => {
                        let i = self.simp(st, *i);
                        set!(d, self.select(i, &x, &y))
                    }
                    Agg(cs) => {
                        if let (Agg(x), Agg(y)) = (&x, &y) {
                            let mut o = vec![];
                            for k in 0..cs.len() {
                                let ci = self.id(&cs[k]);
                                o.push(self.select(ci, &x[k], &y[k]));
                            }
                            return set!(d, Agg(Rc::new(o)));
                        }
                        panic!("vector select")
                    }
                }
            }
            Inst::Load(d, t, p) => {
                let a = self.op(st, p);
                set!(d, self.load(st, &a, t)?)
            }
            Inst::Store(t, v, p) => {
                let v = self.op(st, v);
                let a = self.op(st, p);
                self.store(st, &a, &v, t)?;
                Ok(Flow::Next)
            }
            Inst::Alloca(d, size) => {
                let a = self.alloc(st, *size, Kind::Stack);
                st.top.allocas.push((a >> 32) as u32 - 1 - self.dynbase);
                set!(d, C(a as u128, 64))
            }
            Inst::Gep(d, b, idx) => {
                let mut r = self.op(st, b);
                for i in idx {
                    match i {
                        GepIdx::Const(k) => {
                            r = match r {
                                C(x, _) => C((x as u64).wrapping_add(*k) as u128, 64),
                                S(e) => {
                                    let k = self.cx.konst(*k as u128, 64);
                                    let v = self.cx.add(e, k);
                                    self.val(v)
                                }
                                _ => panic!(),
                            }
                        }
                        GepIdx::Scaled(o, w, s) => {
                            let v = self.op(st, o);
                            let v = if *w < 64 { self.cast1(Cast::SExt, v, 64) } else { v };
                            r = match (&r, &v) {
                                (C(x, _), C(y, _)) => C((*x as u64).wrapping_add((*y as u64).wrapping_mul(*s)) as u128, 64),
                                _ => {
                                    let y = self.id(&v);
                                    let y = self.simp(st, y);
                                    let k = self.cx.konst(*s as u128, 64);
                                    let m = self.cx.mul(y, k);
                                    let x = self.id(&r);
                                    let a = self.cx.add(x, m);
                                    self.val(a)
                                }
                            };
                        }
                    }
                }
                set!(d, r)
            }
            Inst::Phi(..) => unreachable!(),
            Inst::Br(t) => {
                self.jump(st, f, *t);
                Ok(Flow::Jumped)
            }
            Inst::CondBr(c, a, b) => {
                let c = self.op(st, c);
                let i = match c {
                    C(v, _) => {
                        self.st.branches_concrete += 1;
                        self.jump(st, f, if v == 1 { *a } else { *b });
                        return Ok(Flow::Jumped);
                    }
                    S(i) => self.simp(st, i),
                    _ => panic!(),
                };
                if let Some(k) = self.cx.is_const(i) {
                    self.jump(st, f, if k == 1 { *a } else { *b });
                    return Ok(Flow::Jumped);
                }
                let n = self.cx.not(i);
                self.branch(st, f, vec![(i, *a), (n, *b)])
            }
            Inst::Switch(o, w, d, cases) => {
                let v = self.op(st, o);
                let i = match v {
                    C(k, _) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, f, t);
                        return Ok(Flow::Jumped);
                    }
                    S(i) => self.simp(st, i),
                    _ => panic!(),
                };
                if let Some(k) = self.cx.is_const(i) {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(st, f, t);
                    return Ok(Flow::Jumped);
                }
                let mut opts: Vec<(Id, u32)> = vec![];
                let mut any = Ctx::FALSE;
                for (k, t) in cases {
                    let kk = self.cx.konst(*k, *w);
                    let c = self.cx.eq(i, kk);
                    any = self.cx.or(any, c);
                    if let Some(e) = opts.iter_mut().find(|e| e.1 == *t) {
                        e.0 = self.cx.or(e.0, c);
                    } else {
                        opts.push((c, *t));
                    }
                }
                let dc = self.cx.not(any);
                if let Some(e) = opts.iter_mut().find(|e| e.1 == *d) {
                    e.0 = self.cx.or(e.0, dc);
                } else {
                    opts.push((dc, *d));
                }
                self.branch(st, f, opts)
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.op(st, o));
                let al = std::mem::take(&mut st.top.allocas);
                for a in al {
                    *st.tab.get_mut(a as usize).unwrap() = Slot::Freed;
                    st.free_stack.push(a);
                }
                match st.stack.pop() {
                    None => Err(End::Done),
                    Some(fr) => {
                        let done = std::mem::replace(
                            &mut st.top,
                            match Rc::try_unwrap(fr) {
                                Ok(x) => x,
                                Err(r) => (*r).clone(),
                            },
                        );
                        if let Some(d) = done.dst {
                            st.top.regs[d as usize] = r.expect("return value");
                        }
                        match done.normal {
                            Some(n) => {
                                let pf = st.top.f.clone();
                                self.jump(st, &pf, n)
                            }
                            None => st.top.ip += 1,
                        }
                        Ok(Flow::Frame)
                    }
                }
            }
            Inst::Call { dst, ret, callee, args, normal } => self.call(st, f, dst, ret, callee, args, normal),
            Inst::ExtractValue(d, a, path) => {
                let mut v = self.op(st, a);
                for p in path {
                    v = match &v {
                        Agg(x) => x[*p as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                set!(d, v)
            }
            Inst::InsertValue(d, _, a, e, path) => {
                let v = self.op(st, a);
                let e = self.op(st, e);
                fn ins(v: &Val, path: &[u32], e: Val) -> Val {
                    if path.is_empty() {
                        return e;
                    }
                    match v {
                        Agg(x) => {
                            let mut n = (**x).clone();
                            n[path[0] as usize] = ins(&x[path[0] as usize], &path[1..], e);
                            Agg(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                set!(d, ins(&v, path, e))
            }
            Inst::ExtractElem(d, a, i) => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let k = self.conc_val(st, &i)? as usize;
                match v {
                    Agg(x) => set!(d, x[k].clone()),
                    _ => panic!(),
                }
            }
            Inst::InsertElem(d, _, a, e, i) => {
                let v = self.op(st, a);
                let e = self.op(st, e);
                let i = self.op(st, i);
                let k = self.conc_val(st, &i)? as usize;
                match v {
                    Agg(x) => {
                        let mut n = (*x).clone();
                        n[k] = e;
                        set!(d, Agg(Rc::new(n)))
                    }
                    _ => panic!(),
                }
            }
            Inst::Shuffle(d, t, a, b, idx) => {
                let (x, y) = match (self.op(st, a), self.op(st, b)) {
                    (Agg(x), Agg(y)) => (x, y),
                    _ => panic!(),
                };
                let z = self.zero(&t.elem(0));
                let n = x.len() as i32;
                let o = idx
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            z.clone()
                        } else if *i < n {
                            x[*i as usize].clone()
                        } else {
                            y[(*i - n) as usize].clone()
                        }
                    })
                    .collect();
                set!(d, Agg(Rc::new(o)))
            }
            Inst::Freeze(d, a) => set!(d, self.op(st, a)),
            Inst::AtomicRmw(d, op, t, p, v) => {
                let a = self.op(st, p);
                let v = self.op(st, v);
                let old = self.load(st, &a, t)?;
                let w = w_of(t);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(st, Bin::Add, w, old.clone(), v)?,
                    "sub" => self.bin1(st, Bin::Sub, w, old.clone(), v)?,
                    "and" => self.bin1(st, Bin::And, w, old.clone(), v)?,
                    "or" => self.bin1(st, Bin::Or, w, old.clone(), v)?,
                    "xor" => self.bin1(st, Bin::Xor, w, old.clone(), v)?,
                    o => return Err(End::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, &a, &new, t)?;
                set!(d, old)
            }
            Inst::CmpXchg(d, t, p, a, b) => {
                let ad = self.op(st, p);
                let (x, y) = (self.op(st, a), self.op(st, b));
                let old = self.load(st, &ad, t)?;
                let e = self.icmp1(Pred::Eq, &old, &x);
                let ei = self.id(&e);
                let ok = self.fork_on(st, ei)?;
                if ok {
                    self.store(st, &ad, &y, t)?;
                }
                set!(d, Agg(Rc::new(vec![old, C(ok as u128, 1)])))
            }
            Inst::Nop => Ok(Flow::Next),
            Inst::Unreachable => Err(self.violation(st, "unreachable", "reached unreachable code")),
            Inst::Unsupported(s) => Err(End::Unsupported(s.clone())),
        }
    }

    fn enter(&mut self, st: &mut State, fi: usize, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> X<Flow> {
        let f = self.func(fi);
        *self.st.fnb.entry(f.name.clone()).or_insert(0) += 1;
        let nb = f.blocks.len();
        self.total_blocks.entry(f.name.clone()).or_insert_with(|| (nb, BTreeSet::new())).1.insert(0);
        if st.stack.len() > 400 {
            return Err(self.violation(st, "hang", "recursion limit exceeded"));
        }
        let mut regs = vec![C(0, 64); f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let fr = Frame { f, block: 0, prev: NONE, ip: 0, regs, allocas: vec![], dst, normal };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(Flow::Frame)
    }

    fn call(&mut self, st: &mut State, f: &Rc<LFunc>, dst: &Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Op)], normal: &Option<u32>) -> X<Flow> {
        let t = match callee {
            Callee::T(t) => *t,
            Callee::Asm(_) => {
                if let Some(d) = dst {
                    // used only for optimisation barriers: identity on the first argument when there is one
                    let v = if args.is_empty() { self.zero(ret) } else { self.op(st, &args[0].1) };
                    st.top.regs[*d as usize] = v;
                }
                return Ok(Flow::Next);
            }
            Callee::Indirect(o) => {
                let v = self.op(st, o);
                let a = self.conc_val(st, &v)? as u64;
                let i = (a >> 32) as usize;
                let ng = self.m.globals.len();
                if a & 0xffff_ffff != 0 || i == 0 || i - 1 < ng || i - 1 >= self.dynbase as usize {
                    return Err(self.violation(st, "memory", "call through a bad function pointer"));
                }
                let n = self.fn_names[i - 1 - ng].clone();
                self.target(&n)
            }
            Callee::Direct(_) => unreachable!(),
        };
        match self.targets[t as usize].clone() {
            Target::Fn(i) => {
                let a: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                self.enter(st, i, a, *dst, *normal)
            }
            Target::Bi(n) => {
                if is_panic(&n) {
                    let loc = self.panic_loc(st, args);
                    return Err(self.violation(st, "panic", &format!("{} at {}", panic_kind(&n), loc)));
                }
                let a: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                let r = self.builtin(st, &n, a, args, ret)?;
                if let Some(d) = dst {
                    if let Some(v) = r {
                        st.top.regs[*d as usize] = v;
                    }
                }
                match normal {
                    Some(b) => {
                        self.jump(st, f, *b);
                        Ok(Flow::Jumped)
                    }
                    None => Ok(Flow::Next),
                }
            }
        }
    }

    fn panic_loc(&mut self, st: &mut State, args: &[(Ty, Op)]) -> String {
        // the last pointer argument is &core::panic::Location {ptr,len,line,col}
        for (t, o) in args.iter().rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let C(v, _) = self.op(st, o) {
                if let Ok((_, ob)) = self.obj(st, v as u64) {
                    let off = v as u64 & 0xffff_ffff;
                    if ob.kind != Kind::Const || off + 24 > ob.size {
                        continue;
                    }
                    let p = ob.read_c(off, 8).unwrap() as u64;
                    let len = ob.read_c(off + 8, 8).unwrap() as u64;
                    let line = ob.read_c(off + 16, 4).unwrap();
                    if let Ok((_, so)) = self.obj(st, p) {
                        let so_off = p & 0xffff_ffff;
                        if len < 400 && so_off + len <= so.size {
                            let s: Vec<u8> = so
                                .read_bytes(so_off, len)
                                .iter()
                                .map(|b| match b {
                                    B::C(c) => *c,
                                    _ => b'?',
                                })
                                .collect();
                            return format!("{}:{}", String::from_utf8_lossy(&s), line);
                        }
                    }
                }
            }
        }
        "?".into()
    }

    fn ovf(&mut self, kind: &str, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.id(a), self.id(b));
        let signed = kind.starts_with('s');
        let op = &kind[1..];
        let (res, o) = match (signed, op) {
            (false, "add") => {
                let r = self.cx.add(x, y);
                let o = if self.cx.umax[x as usize].checked_add(self.cx.umax[y as usize]).map_or(false, |s| s <= ones(w)) {
                    Ctx::FALSE
                } else if let Some(k) = self.cx.is_const(y) {
                    let lim = self.cx.konst(ones(w) - k, w);
                    self.cx.ult(lim, x)
                } else {
                    self.cx.ult(r, x)
                };
                (r, o)
            }
            (false, "sub") => (self.cx.sub(x, y), self.cx.ult(x, y)),
            (false, "mul") => {
                let r = self.cx.mul(x, y);
                let o = if self.cx.umax[x as usize].checked_mul(self.cx.umax[y as usize]).map_or(false, |s| s <= ones(w)) {
                    Ctx::FALSE
                } else if let Some(k) = self.cx.is_const(y) {
                    let lim = self.cx.konst(ones(w) / k.max(1), w);
                    self.cx.ult(lim, x)
                } else if let Some(k) = self.cx.is_const(x) {
                    let lim = self.cx.konst(ones(w) / k.max(1), w);
                    self.cx.ult(lim, y)
                } else {
                    let (xe, ye) = (self.cx.zext(x, 2 * w), self.cx.zext(y, 2 * w));
                    let m = self.cx.mul(xe, ye);
                    let h = self.cx.extract(m, w, w);
                    let z = self.cx.konst(0, w);
                    let e = self.cx.eq(h, z);
                    self.cx.not(e)
                };
                (r, o)
            }
            (true, op) => {
                let n = if op == "mul" { 2 * w } else { w + 1 };
                let (xe, ye) = (self.cx.sext(x, n), self.cx.sext(y, n));
                let (r, re) = match op {
                    "add" => (self.cx.add(x, y), self.cx.add(xe, ye)),
                    "sub" => (self.cx.sub(x, y), self.cx.sub(xe, ye)),
                    _ => (self.cx.mul(x, y), self.cx.mul(xe, ye)),
                };
                let rs = self.cx.sext(r, n);
                let e = self.cx.eq(rs, re);
                (r, self.cx.not(e))
            }
            _ => unreachable!(),
        };
        Agg(Rc::new(vec![self.val(res), self.val(o)]))
    }

    fn vmap(&mut self, v: &Val, g: &mut dyn FnMut(&mut Vm, &Val) -> Val) -> Val {
        match v {
            Agg(x) => Agg(Rc::new(x.iter().map(|e| g(self, e)).collect())),
            x => g(self, x),
        }
    }
    fn vmap2(&mut self, a: &Val, b: &Val, g: &mut dyn FnMut(&mut Vm, &Val, &Val) -> Val) -> Val {
        match (a, b) {
            (Agg(x), Agg(y)) => Agg(Rc::new((0..x.len()).map(|k| g(self, &x[k], &y[k])).collect())),
            (x, y) => g(self, x, y),
        }
    }

    fn builtin(&mut self, st: &mut State, n: &str, a: Vec<Val>, args: &[(Ty, Op)], ret: &Ty) -> X<Option<Val>> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, r, a, args, ret);
        }
        match n {
            "vse_bytes" => {
                let c = self.conc_val(st, &a[1])? as u64;
                if c == 0 {
                    return Ok(None);
                }
                let (i, _, off) = self.bulk(st, &a[0], c, true)?;
                for k in 0..c {
                    let v = self.cx.var_n(st.nvars, 8);
                    st.nvars += 1;
                    self.obj_mut(st, i).set(off + k, B::S(v));
                }
                Ok(None)
            }
            "vse_assume" => {
                let c = self.id(&a[0]);
                let c = if self.cx.w(c) > 1 { self.cx.extract(c, 0, 1) } else { c };
                let c = self.simp(st, c);
                if c == Ctx::TRUE {
                    return Ok(None);
                }
                if c == Ctx::FALSE {
                    return Err(End::Assume);
                }
                if self.eval(st, c) != 1 {
                    match self.query(st, c) {
                        R::Sat(m) => st.model = self.upd_model(&st.model, &m),
                        R::Unsat => return Err(End::Assume),
                        R::Unknown => {
                            self.incomplete("solver unknown");
                            return Err(End::Assume);
                        }
                    }
                }
                self.assume(st, c, true);
                Ok(None)
            }
            "vse_assert" => {
                self.st.asserts += 1;
                let c = self.id(&a[0]);
                let c = if self.cx.w(c) > 1 { self.cx.extract(c, 0, 1) } else { c };
                let c = self.simp(st, c);
                let line = match &a[1] {
                    C(l, _) => *l,
                    _ => 0,
                };
                if c == Ctx::TRUE {
                    return Ok(None);
                }
                self.st.asserts_symbolic += 1;
                let nc = self.cx.not(c);
                let msg = format!("assertion #{}", line);
                if self.eval(st, nc) == 1 {
                    let e = self.violation(st, "assert", &msg);
                    if self.cx.depth(c) > 150 {
                        // too deep to look for values that pass as well
                        return Err(e);
                    }
                    match self.query(st, c) {
                        R::Sat(m) => {
                            st.model = self.upd_model(&st.model, &m);
                            self.assume(st, c, true);
                            return Ok(None);
                        }
                        _ => return Err(e),
                    }
                }
                match self.query(st, nc) {
                    R::Unsat => self.assume(st, c, false),
                    R::Unknown => {
                        self.incomplete("solver unknown on assertion");
                        self.assume(st, c, true)
                    }
                    R::Sat(m) => {
                        let mut o = st.clone();
                        o.model = self.upd_model(&st.model, &m);
                        self.violation(&o, "assert", &msg);
                        self.assume(st, c, true);
                    }
                }
                Ok(None)
            }
            "vse_reach" => {
                if let C(k, _) = a[0] {
                    self.st.reach.insert(k as u64);
                }
                Ok(None)
            }
            "vse_param" => {
                let k = match a[0] {
                    C(k, _) => k as usize,
                    _ => 0,
                };
                Ok(Some(C(*self.cfg.params.get(k).unwrap_or(&0) as u128, 64)))
            }
            "vse_concretize" => {
                let v = self.conc_val(st, &a[0])?;
                Ok(Some(C(v, 64)))
            }
            "vse_merge" => {
                st.merge = matches!(a[0], C(1, _));
                Ok(None)
            }
            "vse_is_symbolic" => Ok(Some(C(matches!(a[0], S(_)) as u128, 1))),
            "vse_log" => {
                let i = self.id(&a[1]);
                let s = self.cx.show(i, 6);
                let v = self.eval(st, i);
                eprintln!("LOG {:?} = {:#x}  {}", a[0], v, s);
                Ok(None)
            }
            "malloc" | "calloc" | "posix_memalign" | "realloc" | "aligned_alloc" => {
                let szv = match n {
                    "malloc" => a[0].clone(),
                    "calloc" => self.bin1(st, Bin::Mul, 64, a[0].clone(), a[1].clone())?,
                    "posix_memalign" => a[2].clone(),
                    _ => a[1].clone(),
                };
                let size = match szv {
                    C(v, _) => v as u64,
                    S(e) => {
                        let lim = self.cx.konst(self.cfg.max_alloc as u128, 64);
                        let c = self.cx.ule(e, lim);
                        if !self.fork_on(st, c)? {
                            let lim = self.cx.konst(HUGE as u128, 64);
                            let c = self.cx.ule(e, lim);
                            if self.fork_on(st, c)? {
                                self.cfg.max_alloc + 1
                            } else {
                                HUGE + 1
                            }
                        } else {
                            let e = self.simp(st, e);
                            match self.cx.is_const(e) {
                                Some(k) => k as u64,
                                None => {
                                    let hi = self.cx.umax[e as usize].min(self.cfg.max_alloc as u128);
                                    if hi <= 4096 {
                                        hi as u64
                                    } else {
                                        let cur = self.eval(st, e);
                                        self.bounds(st, e, cur, hi).1 as u64
                                    }
                                }
                            }
                        }
                    }
                    _ => panic!(),
                };
                if size > HUGE {
                    return Err(self.violation(st, "memory", "allocation over 6 GiB"));
                }
                if size > self.cfg.max_alloc {
                    return Err(End::Cap(format!("allocation over {} bytes", self.cfg.max_alloc)));
                }
                st.allocated += size;
                if st.allocated > 16 * self.cfg.max_alloc {
                    return Err(End::Cap("total allocation".into()));
                }
                let p = self.alloc(st, size, Kind::Heap);
                match n {
                    "realloc" => {
                        let old = self.conc_val(st, &a[0])? as u64;
                        if old != 0 {
                            let (oi, oo) = match self.obj(st, old) {
                                Ok(x) => x,
                                Err(m) => return Err(self.violation(st, "memory", &m)),
                            };
                            let pi = (p >> 32) as u32 - 1;
                            let k = oo.size.min(size);
                            if k > 0 {
                                let dst = self.obj_mut(st, pi);
                                mem::copy(dst, 0, &oo, 0, k);
                            }
                            *st.tab.get_mut((oi - self.dynbase) as usize).unwrap() = Slot::Freed;
                        }
                        Ok(Some(C(p as u128, 64)))
                    }
                    "posix_memalign" => {
                        self.store(st, &a[0], &C(p as u128, 64), &Ty::Ptr)?;
                        Ok(Some(C(0, 32)))
                    }
                    _ => Ok(Some(C(p as u128, 64))),
                }
            }
            "free" => {
                let p = self.conc_val(st, &a[0])? as u64;
                if p == 0 {
                    return Ok(None);
                }
                match self.obj(st, p) {
                    Ok((i, o)) => {
                        if p & 0xffff_ffff != 0 || o.kind != Kind::Heap {
                            return Err(self.violation(st, "memory", "bad free"));
                        }
                        st.allocated = st.allocated.saturating_sub(o.size);
                        *st.tab.get_mut((i - self.dynbase) as usize).unwrap() = Slot::Freed;
                        Ok(None)
                    }
                    Err(m) => Err(self.violation(st, "memory", &m)),
                }
            }
            "memcmp" | "bcmp" => {
                let k = self.conc_val(st, &a[2])? as u64;
                if k == 0 {
                    return Ok(Some(C(0, 32)));
                }
                let (_, xo, xf) = self.bulk(st, &a[0], k, false)?;
                let (_, yo, yf) = self.bulk(st, &a[1], k, false)?;
                let mut r = self.cx.konst(0, 32);
                for j in (0..k).rev() {
                    let (x, y) = (xo.get(xf + j), yo.get(yf + j));
                    if x == y {
                        continue;
                    }
                    let (x, y) = (self.bid(x), self.bid(y));
                    let e = self.cx.eq(x, y);
                    let d = if n == "bcmp" {
                        self.cx.konst(1, 32)
                    } else {
                        let (xe, ye) = (self.cx.zext(x, 32), self.cx.zext(y, 32));
                        self.cx.sub(xe, ye)
                    };
                    r = self.cx.ite(e, r, d);
                }
                Ok(Some(self.val(r)))
            }
            "strlen" => {
                let p = self.conc_val(st, &a[0])? as u64;
                let mut k = 0;
                loop {
                    let v = self.load(st, &C((p + k) as u128, 64), &Ty::Int(8))?;
                    if self.conc_val(st, &v)? == 0 {
                        break;
                    }
                    k += 1;
                }
                Ok(Some(C(k as u128, 64)))
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "getenv" => Ok(Some(C(0, 64))),
            "syscall" if self.conc_val(st, &a[0])? == 318 => {
                // getrandom: the harness stands in for the generators this seeds
                let (p, k) = (self.conc_val(st, &a[1])? as u64, self.conc_val(st, &a[2])? as u64);
                for j in 0..k {
                    let v = C((j as u8).wrapping_mul(37) as u128 ^ 0x5a, 8);
                    self.store(st, &C((p + j) as u128, 64), &v, &Ty::Int(8))?;
                }
                Ok(Some(a[2].clone()))
            }
            "pthread_atfork" => Ok(Some(C(0, 32))),
            "gettid" => Ok(Some(C(1, 32))),
            "abort" => Err(self.violation(st, "panic", "abort")),
            "write" | "writev" | "vse_raw_write" => Ok(Some(a[2].clone())),
            "__cxa_thread_atexit_impl" => Ok(Some(C(0, 32))),
            _ if n.contains("4core3fmt5write") => Ok(Some(self.zero(ret))),
            _ if n.contains("18handle_alloc_error") => Err(End::Cap("allocation failure".into())),
            _ => Err(End::Unsupported(format!("external function {}", n))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: Vec<Val>, args: &[(Ty, Op)], ret: &Ty) -> X<Option<Val>> {
        let base: &str = n.split('.').next().unwrap();
        match base {
            "lifetime" | "assume" | "dbg" | "donothing" | "prefetch" | "invariant" | "var" => return Ok(None),
            "experimental" => return Ok(None),
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                return Ok(None);
            }
            "memset" => {
                let k = self.conc_val(st, &a[2])? as u64;
                if k == 0 {
                    return Ok(None);
                }
                let (i, _, off) = self.bulk(st, &a[0], k, true)?;
                match &a[1] {
                    C(v, _) => {
                        let v = *v as u8;
                        self.obj_mut(st, i).fill(off, k, v)
                    }
                    S(e) => {
                        for j in 0..k {
                            self.obj_mut(st, i).set(off + j, B::S(*e));
                        }
                    }
                    _ => panic!(),
                }
                return Ok(None);
            }
            "trap" => return Err(self.violation(st, "panic", "trap")),
            "is" => return Ok(Some(C(0, 1))),
            "threadlocal" => return Ok(Some(a[0].clone())),
            "expect" => return Ok(Some(a[0].clone())),
            "x86" => return Ok(None),
            "load" => {
                // llvm.load.relative.i64(ptr, i64)
                let p = self.conc_val(st, &a[0])? as u64;
                let o = self.conc_val(st, &a[1])? as u64;
                // table of "target - table" offsets: take the target from the initialiser itself
                let (i, off) = ((p >> 32) as usize, (p & 0xffff_ffff).wrapping_add(o));
                if i >= 1 && i <= self.m.globals.len() && off % 4 == 0 && off < 1 << 31 {
                    if let Some(K::Agg(_, v)) = &self.m.globals[i - 1].init {
                        if let Some(K::Cast(_, b, _)) = v.get(off as usize / 4) {
                            if let K::Bin(op, x, _) = &**b {
                                if op == "sub" {
                                    return Ok(Some(self.kval(x, &Ty::Int(64))));
                                }
                            }
                        }
                    }
                }
                return Err(End::Unsupported("llvm.load.relative".into()));
            }
            _ => {}
        }
        let ew = match &args[0].0 {
            Ty::Vector(_, t) => t.bits(),
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        let mut parts = n.split('.');
        let p0 = parts.next().unwrap();
        let p1 = parts.next().unwrap_or("");
        if p1 == "with" {
            if let (Agg(_), _) = (&a[0], &a[1]) {
                return Err(End::Unsupported(n.into()));
            }
            return Ok(Some(self.ovf(p0, ew, &a[0], &a[1])));
        }
        let r = match p0 {
            "umin" | "umax" | "smin" | "smax" => {
                let pr = match p0 {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                self.vmap2(&a[0], &a[1], &mut |s, x, y| {
                    let c = s.icmp1(pr, x, y);
                    let c = s.id(&c);
                    s.select(c, x, y)
                })
            }
            "abs" => self.vmap(&a[0], &mut |s, x| {
                let z = C(0, ew);
                let c = s.icmp1(Pred::Slt, x, &z);
                let c = s.id(&c);
                let xi = s.id(x);
                let ng = s.cx.neg(xi);
                let r = s.cx.ite(c, ng, xi);
                s.val(r)
            }),
            "usub" | "uadd" | "ssub" | "sadd" if p1 == "sat" => {
                if p0.starts_with('s') {
                    return Err(End::Unsupported(n.into()));
                }
                self.vmap2(&a[0], &a[1], &mut |s, x, y| {
                    let (xi, yi) = (s.id(x), s.id(y));
                    let r = if p0 == "usub" {
                        let c = s.cx.ult(xi, yi);
                        let z = s.cx.konst(0, ew);
                        let d = s.cx.sub(xi, yi);
                        s.cx.ite(c, z, d)
                    } else {
                        let d = s.cx.add(xi, yi);
                        let c = s.cx.ult(d, xi);
                        let z = s.cx.konst(ones(ew), ew);
                        s.cx.ite(c, z, d)
                    };
                    s.val(r)
                })
            }
            "ucmp" | "scmp" => {
                let rw = match ret {
                    Ty::Int(w) => *w,
                    _ => return Err(End::Unsupported(n.into())),
                };
                let (lt, gt) = if p0 == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp1(lt, &a[0], &a[1]);
                let g = self.icmp1(gt, &a[0], &a[1]);
                let (l, g) = (self.id(&l), self.id(&g));
                let (m1, one, z) = (self.cx.konst(ones(rw), rw), self.cx.konst(1, rw), self.cx.konst(0, rw));
                let r = self.cx.ite(g, one, z);
                let r = self.cx.ite(l, m1, r);
                self.val(r)
            }
            "ctpop" => self.vmap(&a[0], &mut |s, x| {
                if let C(v, w) = x {
                    return C(v.count_ones() as u128, *w);
                }
                let i = s.id(x);
                let mut r = s.cx.konst(0, ew);
                for k in 0..ew {
                    let b = s.cx.extract(i, k, 1);
                    let b = s.cx.zext(b, ew);
                    r = s.cx.add(r, b);
                }
                s.val(r)
            }),
            "ctlz" | "cttz" => self.vmap(&a[0], &mut |s, x| {
                if let C(v, w) = x {
                    let v = *v;
                    let r = if v == 0 {
                        *w
                    } else if p0 == "ctlz" {
                        v.leading_zeros() - (128 - *w)
                    } else {
                        v.trailing_zeros()
                    };
                    return C(r as u128, *w);
                }
                let i = s.id(x);
                let mut r = s.cx.konst(ew as u128, ew);
                for k in 0..ew {
                    // highest priority last
                    let bit = if p0 == "ctlz" { k } else { ew - 1 - k };
                    let b = s.cx.extract(i, bit, 1);
                    let v = if p0 == "ctlz" { ew - 1 - bit } else { bit };
                    let kv = s.cx.konst(v as u128, ew);
                    r = s.cx.ite(b, kv, r);
                }
                s.val(r)
            }),
            "bswap" => self.vmap(&a[0], &mut |s, x| {
                let i = s.id(x);
                let mut r: Option<Id> = None;
                for k in 0..ew / 8 {
                    let b = s.cx.extract(i, k * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => s.cx.concat(h, b),
                    });
                }
                s.val(r.unwrap())
            }),
            "bitreverse" => self.vmap(&a[0], &mut |s, x| {
                let i = s.id(x);
                let mut r: Option<Id> = None;
                for k in 0..ew {
                    let b = s.cx.extract(i, k, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => s.cx.concat(h, b),
                    });
                }
                s.val(r.unwrap())
            }),
            "fshl" | "fshr" => {
                let one = |s: &mut Vm, x: &Val, y: &Val, z: &Val| -> Val {
                    let (x, y, z) = (s.id(x), s.id(y), s.id(z));
                    let cat = s.cx.concat(x, y);
                    let m = s.cx.konst(ew as u128, ew);
                    let sh = s.cx.urem(z, m);
                    let sh = s.cx.zext(sh, 2 * ew);
                    let r = if p0 == "fshl" {
                        let t = s.cx.shl(cat, sh);
                        s.cx.extract(t, ew, ew)
                    } else {
                        let t = s.cx.lshr(cat, sh);
                        s.cx.extract(t, 0, ew)
                    };
                    s.val(r)
                };
                match (&a[0], &a[1], &a[2]) {
                    (Agg(x), Agg(y), Agg(z)) => Agg(Rc::new((0..x.len()).map(|k| one(self, &x[k], &y[k], &z[k])).collect())),
                    (x, y, z) => one(self, x, y, z),
                }
            }
            "vector" => {
                // llvm.vector.reduce.<op>
                let op = parts.next().unwrap_or("");
                let xs = match &a[0] {
                    Agg(x) => x.clone(),
                    _ => return Err(End::Unsupported(n.into())),
                };
                let mut r = self.id(&xs[0]);
                for x in xs.iter().skip(1) {
                    let x = self.id(x);
                    r = match op {
                        "add" => self.cx.add(r, x),
                        "or" => self.cx.or(r, x),
                        "and" => self.cx.and(r, x),
                        "xor" => self.cx.xor(r, x),
                        _ => return Err(End::Unsupported(n.into())),
                    };
                }
                self.val(r)
            }
            _ => return Err(End::Unsupported(format!("llvm.{}", n))),
        };
        Ok(Some(r))
    }
}

fn cyclic(f: &LFunc, set: &BTreeSet<u32>) -> bool {
    // colours: 0 new 1 open 2 done
    let mut col: BTreeMap<u32, u8> = BTreeMap::new();
    for s in set {
        if *col.get(s).unwrap_or(&0) != 0 {
            continue;
        }
        let mut stack = vec![(*s, 0usize)];
        col.insert(*s, 1);
        while let Some((b, i)) = stack.pop() {
            let su = &f.blocks[b as usize].succs;
            if i < su.len() {
                stack.push((b, i + 1));
                let x = su[i];
                if !set.contains(&x) {
                    continue;
                }
                match *col.get(&x).unwrap_or(&0) {
                    0 => {
                        col.insert(x, 1);
                        stack.push((x, 0));
                    }
                    1 => return true,
                    _ => {}
                }
            } else {
                col.insert(b, 2);
            }
        }
    }
    false
}

pub enum Flow {
    Next,
    Jumped,
    Frame,
}

fn is_panic(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("10begin_panic")
        || n.contains("11begin_panic")
        || n.contains("17begin_panic_handler")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("16slice_index_fail")
        || n.contains("16slice_error_fail")
        || n.contains("17capacity_overflow")
        || n.contains("17len_mismatch_fail")
        || n.contains("30default_hook")
}
fn panic_kind(n: &str) -> String {
    for k in [
        "panic_bounds_check",
        "panic_fmt",
        "panic_const_add_overflow",
        "panic_const_sub_overflow",
        "panic_const_mul_overflow",
        "panic_const_shl_overflow",
        "panic_const_shr_overflow",
        "panic_const_div_by_zero",
        "panic_const_rem_by_zero",
        "assert_failed",
        "unwrap_failed",
        "expect_failed",
        "slice_index_fail",
        "slice_error_fail",
        "capacity_overflow",
        "len_mismatch_fail",
    ] {
        if n.contains(k) {
            return k.into();
        }
    }
    "panic".into()
}
fn is_builtin(n: &str) -> bool {
    n.starts_with("llvm.")
        || is_panic(n)
        || n.contains("4core3fmt5write")
        || n.contains("18handle_alloc_error")
        || n == "rust_panic"
        || n == "abort"
}
pub fn short(n: &str) -> String {
    n.chars().rev().take(60).collect::<String>().chars().rev().collect()
}
