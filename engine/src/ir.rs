//! Parser for the textual LLVM IR subset rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => {
                let s = self.store_size();
                s.next_power_of_two()
            }
            Ty::Struct(p, ts) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*p {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        align_up(self.store_size(), self.align())
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*p {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field oob")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(_, ts) => ts[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(_, ts) => ts.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

/// Constant expressions (before linking to addresses)
#[derive(Clone, Debug)]
pub enum K {
    Int(Ty, u128),
    Null,
    Zero(Ty),
    Undef(Ty),
    Global(String),
    Agg(Ty, Vec<K>),
    Bytes(Vec<u8>),
    Gep(Ty, Box<K>, Vec<K>),
    Cast(String, Box<K>, Ty),
    Bin(String, Box<K>, Box<K>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Rc<K>),
    /// index into the linked constant table, filled lazily by the executor
    C(u32),
}

#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum GepIdx {
    Const(u64),          // byte offset
    Scaled(Op, u32, u64), // operand, its bit width, scale
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bin, Ty, Op, Op),
    ICmp(u32, Pred, Ty, Op, Op),
    Cast(u32, Cast, Ty, Op, Ty),
    Select(u32, Ty, Ty, Op, Op, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u32, u64),
    Gep(u32, Op, Vec<GepIdx>),
    Phi(u32, Vec<(u32, Op)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>), // op, width, default, cases
    Ret(Option<(Ty, Op)>),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Callee,
        args: Vec<(Ty, Op)>,
        normal: Option<u32>, // invoke
    },
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Ty, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i32>),
    Freeze(u32, Op),
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Nop,
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Op),
    /// resolved by the executor
    T(u32),
    Asm(String),
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Vec<Inst>>,
    pub block_names: Vec<String>,
    pub ret: Ty,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub fn_pos: HashMap<String, (usize, usize)>, // byte range of the function text
    pub decls: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(String),
    G(String),
    M,
    A,
    S(Vec<u8>),
    P(char),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else if c.is_ascii_whitespace() {
                self.p += 1;
            } else {
                break;
            }
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let b = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1;
            }
            std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string()
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.p >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::L(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::G(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && (is_word(self.s[self.p]) || self.s[self.p] == b'"') {
                    self.name();
                }
                Tok::M
            }
            b'#' => {
                self.p += 1;
                self.name();
                Tok::A
            }
            b'"' => Tok::S(self.quoted()),
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                Tok::S(self.quoted())
            }
            _ if is_word(c) => {
                let b = self.p;
                while self.p < self.s.len() && is_word(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::W(std::str::from_utf8(&self.s[b..self.p]).unwrap())
            }
            _ => {
                self.p += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::W(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!(
                "expected {:?} got {:?} near {:?}",
                c,
                t,
                String::from_utf8_lossy(&self.s[self.p.saturating_sub(120)..(self.p + 40).min(self.s.len())])
            );
        }
    }
    fn skip_parens(&mut self) {
        // next is '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn int_width(w: &str) -> Option<u32> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

fn is_const_kw(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
            | "ptrtoint" | "sub" | "add" | "mul" | "trunc" | "bitcast" | "xor" | "splat" | "asm" | "icmp" | "and" | "or" | "shl" | "lshr" | "addrspacecast"
            | "ptrtoaddr" | "blockaddress" | "no_cfi" | "dso_local_equivalent"
    ) || w.as_bytes()[0].is_ascii_digit()
        || (w.len() > 1 && w.as_bytes()[0] == b'-' && w.as_bytes()[1].is_ascii_digit())
}

pub struct P<'a> {
    pub l: Lex<'a>,
    pub types: &'a HashMap<String, Ty>,
    pub regs: HashMap<String, u32>,
    pub blocks: HashMap<String, u32>,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> Self {
        P { l: Lex::new(s), types, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn type_starts(&mut self) -> bool {
        match self.l.peek() {
            Tok::W(w) => {
                int_width(w).is_some()
                    || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
            }
            Tok::L(n) => self.types.contains_key(&n),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.l.next() {
            Tok::W(w) => {
                if let Some(n) = int_width(w) {
                    return Ty::Int(n);
                }
                match w {
                    "ptr" => {
                        if self.l.eatw("addrspace") {
                            self.l.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ => panic!("type? {}", w),
                }
            }
            Tok::L(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.l.eatw("x"));
                let t = self.ty();
                self.l.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.l.peek() == Tok::P('{') {
                    let t = self.ty();
                    self.l.expect('>');
                    if let Ty::Struct(_, v) = t {
                        return Ty::Struct(true, v);
                    }
                    unreachable!()
                }
                let n = self.num() as u64;
                assert!(self.l.eatw("x"));
                let t = self.ty();
                self.l.expect('>');
                Ty::Vector(n, Rc::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                if !self.l.eat('}') {
                    loop {
                        v.push(self.ty());
                        if self.l.eat('}') {
                            break;
                        }
                        self.l.expect(',');
                    }
                }
                Ty::Struct(false, Rc::new(v))
            }
            t => panic!("type? {:?}", t),
        }
    }
    fn num(&mut self) -> i128 {
        match self.l.next() {
            Tok::W(w) => w.parse().unwrap_or_else(|_| panic!("num {}", w)),
            t => panic!("num {:?}", t),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.l.peek() {
                Tok::W(w) => {
                    if is_const_kw(w) {
                        return;
                    }
                    self.l.next();
                    if w == "align" {
                        if self.l.peek() == Tok::P('(') {
                            self.l.skip_parens();
                        } else {
                            self.l.next();
                        }
                    } else if self.l.peek() == Tok::P('(') {
                        self.l.skip_parens();
                    }
                }
                Tok::S(_) => {
                    self.l.next();
                    if self.l.eat('=') {
                        self.l.next();
                    }
                }
                Tok::A => {
                    self.l.next();
                }
                _ => return,
            }
        }
    }
    pub fn konst(&mut self, t: &Ty) -> K {
        match self.l.next() {
            Tok::W(w) => match w {
                "true" => K::Int(t.clone(), 1),
                "false" => K::Int(t.clone(), 0),
                "null" => K::Null,
                "undef" | "poison" => K::Undef(t.clone()),
                "zeroinitializer" | "none" => K::Zero(t.clone()),
                "splat" => {
                    self.l.expect('(');
                    let et = self.ty();
                    let k = self.konst(&et);
                    self.l.expect(')');
                    K::Agg(t.clone(), vec![k; t.count()])
                }
                "getelementptr" => {
                    while let Tok::W(w) = self.l.peek() {
                        self.l.next();
                        if w == "inrange" {
                            self.l.skip_parens();
                        }
                    }
                    self.l.expect('(');
                    let bt = self.ty();
                    self.l.expect(',');
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut idx = vec![];
                    while self.l.eat(',') {
                        let it = self.ty();
                        idx.push(self.konst(&it));
                    }
                    self.l.expect(')');
                    K::Gep(bt, Box::new(base), idx)
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    let _ = self.l.eatw("nuw");
                    let _ = self.l.eatw("nsw");
                    self.l.expect('(');
                    let st = self.ty();
                    let k = self.konst(&st);
                    assert!(self.l.eatw("to"));
                    let dt = self.ty();
                    self.l.expect(')');
                    K::Cast(w.to_string(), Box::new(k), dt)
                }
                "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while let Tok::W(_) = self.l.peek() {
                        self.l.next();
                    }
                    self.l.expect('(');
                    let at = self.ty();
                    let a = self.konst(&at);
                    self.l.expect(',');
                    let bt = self.ty();
                    let b = self.konst(&bt);
                    self.l.expect(')');
                    K::Bin(w.to_string(), Box::new(a), Box::new(b))
                }
                _ => {
                    if let Ty::Int(bw) = t {
                        if let Ok(v) = w.parse::<i128>() {
                            return K::Int(t.clone(), mask(v as u128, *bw));
                        }
                        if let Ok(v) = w.parse::<u128>() {
                            return K::Int(t.clone(), mask(v, *bw));
                        }
                    }
                    K::Unsupported(format!("{:?} {}", t, w))
                }
            },
            Tok::G(n) => K::Global(n),
            Tok::S(b) => K::Bytes(b),
            Tok::P('[') => {
                let v = self.klist(']');
                K::Agg(t.clone(), v)
            }
            Tok::P('{') => {
                let v = self.klist('}');
                K::Agg(t.clone(), v)
            }
            Tok::P('<') => {
                if self.l.eat('{') {
                    let v = self.klist('}');
                    self.l.expect('>');
                    K::Agg(t.clone(), v)
                } else {
                    let v = self.klist('>');
                    K::Agg(t.clone(), v)
                }
            }
            x => panic!("const? {:?} ty {:?}", x, t),
        }
    }
    fn klist(&mut self, end: char) -> Vec<K> {
        let mut v = vec![];
        if self.l.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.l.eat(end) {
                return v;
            }
            self.l.expect(',');
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn op(&mut self, t: &Ty) -> Op {
        if let Tok::L(n) = self.l.peek() {
            self.l.next();
            return Op::Reg(self.reg(n));
        }
        if matches!(t, Ty::Other) {
            // metadata or so
            self.l.next();
            return Op::K(Rc::new(K::Null));
        }
        Op::K(Rc::new(self.konst(t)))
    }
    fn label(&mut self) -> u32 {
        assert!(self.l.eatw("label"));
        if let Tok::L(n) = self.l.next() {
            self.blk(n)
        } else {
            panic!("label")
        }
    }
    fn blk(&mut self, n: String) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }

    fn inst(&mut self, text: &str) -> Inst {
        let mut dst: Option<u32> = None;
        if let Tok::L(n) = self.l.peek() {
            self.l.next();
            self.l.expect('=');
            dst = Some(self.reg(n));
        }
        let w = match self.l.next() {
            Tok::W(w) => w,
            t => panic!("inst? {:?} in {}", t, text),
        };
        let binop = |w: &str| -> Option<Bin> {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = binop(w) {
            while !self.type_starts() {
                self.l.next();
            }
            let t = self.ty();
            let a = self.op(&t);
            self.l.expect(',');
            let c = self.op(&t);
            return Inst::Bin(dst.unwrap(), b, t, a, c);
        }
        match w {
            "icmp" => {
                if self.l.peek() == Tok::W("samesign") {
                    self.l.next();
                }
                let p = match self.l.next() {
                    Tok::W(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", w),
                    },
                    _ => panic!(),
                };
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let b = self.op(&t);
                Inst::ICmp(dst.unwrap(), p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    _ => Cast::BitCast,
                };
                while !self.type_starts() {
                    self.l.next();
                }
                let t = self.ty();
                let a = self.op(&t);
                assert!(self.l.eatw("to"));
                let d = self.ty();
                Inst::Cast(dst.unwrap(), c, t, a, d)
            }
            "select" => {
                while !self.type_starts() {
                    self.l.next();
                }
                let ct = self.ty();
                let c = self.op(&ct);
                self.l.expect(',');
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let t2 = self.ty();
                let b = self.op(&t2);
                Inst::Select(dst.unwrap(), ct, t, c, a, b)
            }
            "load" => {
                let _ = self.l.eatw("atomic");
                let _ = self.l.eatw("volatile");
                let t = self.ty();
                self.l.expect(',');
                let pt = self.ty();
                let p = self.op(&pt);
                Inst::Load(dst.unwrap(), t, p)
            }
            "store" => {
                let _ = self.l.eatw("atomic");
                let _ = self.l.eatw("volatile");
                let t = self.ty();
                let v = self.op(&t);
                self.l.expect(',');
                let pt = self.ty();
                let p = self.op(&pt);
                Inst::Store(t, v, p)
            }
            "alloca" => {
                let _ = self.l.eatw("inalloca");
                let t = self.ty();
                let mut n = 1u64;
                if self.l.eat(',') && self.type_starts() {
                    let ct = self.ty();
                    match self.konst(&ct) {
                        K::Int(_, v) => n = v as u64,
                        _ => return Inst::Unsupported(text.to_string()),
                    }
                }
                Inst::Alloca(dst.unwrap(), t.size() * n)
            }
            "getelementptr" => {
                while let Tok::W(w) = self.l.peek() {
                    if int_width(w).is_some() || w == "ptr" || w == "float" || w == "double" {
                        break;
                    }
                    self.l.next();
                    if w == "inrange" {
                        self.l.skip_parens();
                    }
                }
                let mut t = self.ty();
                self.l.expect(',');
                let pt = self.ty();
                if matches!(pt, Ty::Vector(..)) {
                    return Inst::Unsupported(text.to_string());
                }
                let base = self.op(&pt);
                let mut idx = vec![];
                let mut first = true;
                while self.l.eat(',') {
                    if self.l.peek() == Tok::M {
                        break;
                    }
                    let it = self.ty();
                    if matches!(it, Ty::Vector(..)) {
                        return Inst::Unsupported(text.to_string());
                    }
                    let o = self.op(&it);
                    let iw = it.bits();
                    let constv = match &o {
                        Op::K(k) => match &**k {
                            K::Int(_, v) => Some(sext(*v, iw)),
                            K::Zero(_) => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        match constv {
                            Some(v) => idx.push(GepIdx::Const((v as i64 as u64).wrapping_mul(t.size()))),
                            None => idx.push(GepIdx::Scaled(o, iw, t.size())),
                        }
                        continue;
                    }
                    match &t.clone() {
                        Ty::Struct(..) => {
                            let v = constv.unwrap() as usize;
                            idx.push(GepIdx::Const(t.field_offset(v)));
                            t = t.elem(v);
                        }
                        Ty::Array(_, et) | Ty::Vector(_, et) => {
                            match constv {
                                Some(v) => idx.push(GepIdx::Const((v as i64 as u64).wrapping_mul(et.size()))),
                                None => idx.push(GepIdx::Scaled(o, iw, et.size())),
                            }
                            t = (**et).clone();
                        }
                        x => panic!("gep into {:?}", x),
                    }
                }
                let mut merged: Vec<GepIdx> = vec![];
                let mut c = 0u64;
                for i in idx {
                    match i {
                        GepIdx::Const(v) => c = c.wrapping_add(v),
                        s => merged.push(s),
                    }
                }
                if c != 0 {
                    merged.push(GepIdx::Const(c));
                }
                Inst::Gep(dst.unwrap(), base, merged)
            }
            "phi" => {
                while !self.type_starts() {
                    self.l.next();
                }
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.l.expect('[');
                    let o = self.op(&t);
                    self.l.expect(',');
                    let b = match self.l.next() {
                        Tok::L(n) => self.blk(n),
                        _ => panic!(),
                    };
                    self.l.expect(']');
                    v.push((b, o));
                    if !self.l.eat(',') {
                        break;
                    }
                    if self.l.peek() == Tok::M {
                        break;
                    }
                }
                Inst::Phi(dst.unwrap(), v)
            }
            "br" => {
                if self.l.peek() == Tok::W("label") {
                    return Inst::Br(self.label());
                }
                let t = self.ty();
                let c = self.op(&t);
                self.l.expect(',');
                let a = self.label();
                self.l.expect(',');
                let b = self.label();
                Inst::CondBr(c, a, b)
            }
            "switch" => {
                let t = self.ty();
                let o = self.op(&t);
                self.l.expect(',');
                let d = self.label();
                self.l.expect('[');
                let mut v = vec![];
                while !self.l.eat(']') {
                    let ct = self.ty();
                    let k = match self.konst(&ct) {
                        K::Int(_, v) => v,
                        _ => panic!("switch case"),
                    };
                    self.l.expect(',');
                    let b = self.label();
                    v.push((k, b));
                }
                Inst::Switch(o, t.bits(), d, v)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.op(&t);
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "tail" | "musttail" | "notail" => {
                self.l.next();
                self.call(dst, false, text)
            }
            "call" => self.call(dst, false, text),
            "invoke" => self.call(dst, true, text),
            "extractvalue" => {
                let t = self.ty();
                let a = self.op(&t);
                let mut v = vec![];
                while self.l.eat(',') {
                    if self.l.peek() == Tok::M {
                        break;
                    }
                    v.push(self.num() as u32);
                }
                Inst::ExtractValue(dst.unwrap(), a, v)
            }
            "insertvalue" => {
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let et = self.ty();
                let e = self.op(&et);
                let mut v = vec![];
                while self.l.eat(',') {
                    if self.l.peek() == Tok::M {
                        break;
                    }
                    v.push(self.num() as u32);
                }
                Inst::InsertValue(dst.unwrap(), t, a, e, v)
            }
            "extractelement" => {
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let it = self.ty();
                let i = self.op(&it);
                Inst::ExtractElem(dst.unwrap(), a, i)
            }
            "insertelement" => {
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let et = self.ty();
                let e = self.op(&et);
                self.l.expect(',');
                let it = self.ty();
                let i = self.op(&it);
                Inst::InsertElem(dst.unwrap(), t, a, e, i)
            }
            "shufflevector" => {
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let t2 = self.ty();
                let b = self.op(&t2);
                self.l.expect(',');
                let mt = self.ty();
                let m = self.konst(&mt);
                let n = mt.count();
                let idx = match m {
                    K::Zero(_) => vec![0; n],
                    K::Undef(_) => vec![-1; n],
                    K::Agg(_, v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(_, v) => *v as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(dst.unwrap(), t, a, b, idx)
            }
            "freeze" => {
                let t = self.ty();
                let a = self.op(&t);
                Inst::Freeze(dst.unwrap(), a)
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                let _ = self.l.eatw("volatile");
                let o = match self.l.next() {
                    Tok::W(w) => w.to_string(),
                    _ => panic!(),
                };
                let pt = self.ty();
                let p = self.op(&pt);
                self.l.expect(',');
                let t = self.ty();
                let v = self.op(&t);
                Inst::AtomicRmw(dst.unwrap(), o, t, p, v)
            }
            "cmpxchg" => {
                let _ = self.l.eatw("weak");
                let _ = self.l.eatw("volatile");
                let pt = self.ty();
                let p = self.op(&pt);
                self.l.expect(',');
                let t = self.ty();
                let a = self.op(&t);
                self.l.expect(',');
                let t2 = self.ty();
                let b = self.op(&t2);
                Inst::CmpXchg(dst.unwrap(), t, p, a, b)
            }
            _ => Inst::Unsupported(text.to_string()),
        }
    }

    fn call(&mut self, dst: Option<u32>, invoke: bool, text: &str) -> Inst {
        // skip calling convention, ret attrs
        loop {
            if self.type_starts() {
                break;
            }
            match self.l.next() {
                Tok::W(w) => {
                    if w == "cc" {
                        self.l.next();
                    } else if w == "align" {
                        self.l.next();
                    } else if self.l.peek() == Tok::P('(') {
                        self.l.skip_parens();
                    }
                }
                Tok::A => {}
                t => panic!("call attr {:?} in {}", t, text),
            }
        }
        let ret = self.ty();
        if self.l.peek() == Tok::P('(') {
            self.l.skip_parens(); // function type
        }
        let callee = match self.l.peek() {
            Tok::G(n) => {
                self.l.next();
                Callee::Direct(n)
            }
            Tok::L(n) => {
                self.l.next();
                Callee::Indirect(Op::Reg(self.reg(n)))
            }
            Tok::W("asm") => {
                self.l.next();
                let mut s = String::new();
                loop {
                    match self.l.peek() {
                        Tok::P('(') => break,
                        Tok::S(b) => {
                            self.l.next();
                            s.push_str(&String::from_utf8_lossy(&b));
                            s.push('|');
                        }
                        _ => {
                            self.l.next();
                        }
                    }
                }
                Callee::Asm(s)
            }
            _ => {
                let k = self.konst(&Ty::Ptr);
                Callee::Indirect(Op::K(Rc::new(k)))
            }
        };
        self.l.expect('(');
        let mut args = vec![];
        if !self.l.eat(')') {
            loop {
                let t = self.ty();
                if matches!(t, Ty::Other) {
                    // metadata argument: skip to , or ) at depth 0
                    let mut d = 0;
                    loop {
                        match self.l.peek() {
                            Tok::P('(') | Tok::P('{') => d += 1,
                            Tok::P('}') => d -= 1,
                            Tok::P(')') => {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            Tok::P(',') if d == 0 => break,
                            _ => {}
                        }
                        self.l.next();
                    }
                    args.push((Ty::Other, Op::K(Rc::new(K::Null))));
                } else {
                    self.skip_attrs();
                    let o = self.op(&t);
                    args.push((t, o));
                }
                if self.l.eat(')') {
                    break;
                }
                self.l.expect(',');
            }
        }
        let mut normal = None;
        if invoke {
            while self.l.peek() != Tok::W("to") {
                self.l.next();
            }
            self.l.next();
            normal = Some(self.label());
        }
        Inst::Call { dst: if ret == Ty::Void { None } else { dst }, ret, callee, args, normal }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn parse_module(text: String) -> Module {
    let mut fn_pos = HashMap::new();
    let mut decls = vec![];
    let mut types = HashMap::new();
    let mut globals = vec![];
    let mut aliases = HashMap::new();
    let mut pos = 0;
    let bytes = text.as_bytes();
    let n = bytes.len();
    let mut glines: Vec<(usize, usize)> = vec![];
    while pos < n {
        let e = memchr(bytes, b'\n', pos);
        let line = &text[pos..e];
        if line.starts_with("define ") {
            // find closing "\n}\n"
            let mut q = e;
            loop {
                let e2 = memchr(bytes, b'\n', q + 1);
                if &text[q + 1..e2] == "}" {
                    q = e2;
                    break;
                }
                q = e2;
            }
            let name = fn_name(line);
            fn_pos.insert(name, (pos, q));
            pos = q + 1;
            continue;
        } else if line.starts_with("declare ") {
            decls.push(fn_name(line));
        } else if line.starts_with('@') {
            glines.push((pos, e));
        } else if line.starts_with('%') {
            // type definition
            let tmp: HashMap<String, Ty> = types.clone();
            let mut p = P::new(line, &tmp);
            if let Tok::L(nm) = p.l.next() {
                p.l.expect('=');
                if p.l.eatw("type") {
                    let t = p.ty();
                    types.insert(nm, t);
                }
            }
        }
        pos = e + 1;
    }
    for (a, b) in glines {
        let line = &text[a..b];
        let mut p = P::new(line, &types);
        let name = match p.l.next() {
            Tok::G(n) => n,
            _ => unreachable!(),
        };
        p.l.expect('=');
        let mut constant = false;
        let mut external = false;
        let mut alias = false;
        loop {
            match p.l.next() {
                Tok::W("global") => break,
                Tok::W("constant") => {
                    constant = true;
                    break;
                }
                Tok::W("alias") => {
                    alias = true;
                    break;
                }
                Tok::W("external") | Tok::W("extern_weak") => external = true,
                Tok::W("ifunc") => {
                    alias = true;
                    break;
                }
                Tok::W(_) => {
                    if p.l.peek() == Tok::P('(') {
                        p.l.skip_parens();
                    }
                }
                t => panic!("global? {:?} {}", t, &line[..line.len().min(200)]),
            }
        }
        let ty = p.ty();
        if alias {
            p.l.expect(',');
            let _ = p.ty();
            if let Tok::G(n) = p.l.next() {
                aliases.insert(name, n);
            }
            continue;
        }
        let init = if external { None } else { Some(p.konst(&ty)) };
        globals.push(GlobalDef { name, ty, init, constant });
    }
    Module { text, fn_pos, decls, types, globals, aliases }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    let mut l = Lex::new(&line[i..]);
    match l.next() {
        Tok::G(n) => n,
        _ => panic!(),
    }
}

pub fn parse_func(m: &Module, name: &str) -> Option<Func> {
    let (a, b) = *m.fn_pos.get(name)?;
    let text = &m.text[a..b];
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    let mut p = P::new(head, &m.types);
    p.l.next(); // define
    loop {
        if p.type_starts() {
            break;
        }
        match p.l.next() {
            Tok::W("cc") => {
                p.l.next();
            }
            Tok::W("align") => {
                p.l.next();
            }
            Tok::W(_) => {
                if p.l.peek() == Tok::P('(') {
                    p.l.skip_parens();
                }
            }
            Tok::A => {}
            t => panic!("define? {:?} {}", t, head),
        }
    }
    let ret = p.ty();
    p.l.next(); // name
    p.l.expect('(');
    let mut params = vec![];
    let mut nunnamed = 0;
    if !p.l.eat(')') {
        loop {
            if p.l.eat('.') {
                while !p.l.eat(')') {
                    p.l.next();
                }
                break;
            }
            if p.l.peek() == Tok::W("...") {
                p.l.next();
                p.l.expect(')');
                break;
            }
            let _t = p.ty();
            p.skip_attrs();
            match p.l.peek() {
                Tok::L(n) => {
                    p.l.next();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        nunnamed += 1;
                    }
                    let r = p.reg(n);
                    params.push(r);
                }
                _ => {
                    let n = format!("{}", nunnamed);
                    nunnamed += 1;
                    let r = p.reg(n);
                    params.push(r);
                }
            }
            if p.l.eat(')') {
                break;
            }
            p.l.expect(',');
        }
    }
    // body
    let mut insts: Vec<(u32, String)> = vec![]; // (block, text)
    let mut cur: Option<u32> = None;
    let mut names: Vec<String> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut regs = std::mem::take(&mut p.regs);
    let mut blocks: HashMap<String, u32> = HashMap::new();
    for line in lines {
        if line.is_empty() || line == "}" {
            continue;
        }
        let bs = line.as_bytes();
        if bs[0] == b';' {
            continue;
        }
        if bs[0] != b' ' {
            // label
            let mut l = Lex::new(line);
            let nm = match l.next() {
                Tok::W(w) => w.to_string(),
                Tok::S(b) => String::from_utf8_lossy(&b).into_owned(),
                t => panic!("label? {:?} {}", t, line),
            };
            let k = blocks.len() as u32;
            let id = *blocks.entry(nm.clone()).or_insert(k);
            names.push(nm);
            order.push(id);
            cur = Some(id);
            continue;
        }
        if cur.is_none() {
            let nm = format!("{}", nunnamed);
            let k = blocks.len() as u32;
            let id = *blocks.entry(nm.clone()).or_insert(k);
            names.push(nm);
            order.push(id);
            cur = Some(id);
        }
        let tl = line.trim_start();
        if tl.starts_with("#dbg") || tl.starts_with(';') {
            continue;
        }
        let indent = line.len() - tl.len();
        if indent > 2 || tl.starts_with(']') {
            if let Some(last) = insts.last_mut() {
                last.1.push(' ');
                last.1.push_str(tl);
            }
            continue;
        }
        insts.push((cur.unwrap(), tl.to_string()));
    }
    let mut out: Vec<Vec<Inst>> = vec![];
    for (b, t) in insts.iter() {
        let mut p = P::new(t, &m.types);
        p.regs = std::mem::take(&mut regs);
        p.blocks = std::mem::take(&mut blocks);
        let i = p.inst(t);
        regs = p.regs;
        blocks = p.blocks;
        while out.len() <= *b as usize {
            out.push(vec![]);
        }
        out[*b as usize].push(i);
    }
    while out.len() < blocks.len() {
        out.push(vec![]);
    }
    let mut bn = vec![String::new(); out.len()];
    for (k, v) in blocks.iter() {
        bn[*v as usize] = k.clone();
    }
    // entry must be block 0
    assert!(order[0] == 0, "entry block not 0");
    Some(Func { name: name.to_string(), params, nregs: regs.len(), blocks: out, block_names: bn, ret })
}
