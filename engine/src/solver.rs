//! Z3 back end: translates expression DAG nodes to Z3 terms and decides path queries.
use crate::expr::*;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
}

#[derive(Clone)]
pub enum R {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub hard: u64,
    pub guessed: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    c: P,
    simple: P,
    bv: FxMap<Id, P>,
    bo: FxMap<Id, P>,
    vars: FxMap<u32, P>,
    cache: FxMap<Vec<Id>, R>,
    pub st: Stats,
    pub timeout_ms: u32,
    terms: usize,
    /// log queries slower than this many ms (VSE_SLOW)
    slow: f64,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let (c, simple) = Self::mk();
            Solver {
                c,
                simple,
                bv: FxMap::default(),
                bo: FxMap::default(),
                vars: FxMap::default(),
                cache: FxMap::default(),
                st: Stats::default(),
                timeout_ms,
                terms: 0,
                slow: std::env::var("VSE_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(f64::MAX),
            }
        }
    }
    unsafe fn mk() -> (P, P) {
        let cfg = Z3_mk_config();
        Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
        let c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, Some(on_err));
        let simple = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, simple);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), 150);
        Z3_solver_set_params(c, simple, p);
        Z3_params_dec_ref(c, p);
        (c, simple)
    }
    fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.simple);
            Z3_del_context(self.c);
            let (c, s) = Self::mk();
            self.c = c;
            self.simple = s;
        }
        self.bv.clear();
        self.bo.clear();
        self.vars.clear();
        self.terms = 0;
    }

    fn get_bv(&self, x: &Ctx, i: Id) -> P {
        if let Some(p) = self.bv.get(&i) {
            return *p;
        }
        let n = x.n(i);
        unsafe {
            if n.op == O::Const {
                let s = Z3_mk_bv_sort(self.c, n.w as c_uint);
                return if n.k <= u64::MAX as u128 {
                    Z3_mk_unsigned_int64(self.c, n.k as u64, s)
                } else {
                    Z3_mk_numeral(self.c, cs(&format!("{}", n.k)).as_ptr(), s)
                };
            }
            assert!(n.w == 1, "missing bv term");
            let b = self.bo[&i];
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        }
    }
    fn get_bo(&self, x: &Ctx, i: Id) -> P {
        let n = x.n(i);
        if n.op == O::Const {
            unsafe {
                return if n.k == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            }
        }
        self.bo[&i]
    }

    fn tr(&mut self, x: &Ctx, root: Id) {
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            let n = x.n(i);
            if n.op == O::Const || self.bv.contains_key(&i) || self.bo.contains_key(&i) {
                st.pop();
                continue;
            }
            let kids: [Id; 3] = match n.op {
                O::Var => [0, 0, 0],
                O::Not | O::Extract | O::ZExt | O::SExt => [n.a, 0, 0],
                O::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for k in kids {
                if x.n(k).op != O::Const && !self.bv.contains_key(&k) && !self.bo.contains_key(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            self.terms += 1;
            let c = self.c;
            unsafe {
                if n.w == 1 {
                    let aw = if n.op == O::Var { 1 } else { x.w(n.a) };
                    let t = match n.op {
                        O::Var => {
                            let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bool_sort(c));
                            self.vars.insert(n.k as u32, v);
                            v
                        }
                        O::Not => Z3_mk_not(c, self.get_bo(x, n.a)),
                        O::And | O::Mul => Z3_mk_and(c, 2, [self.get_bo(x, n.a), self.get_bo(x, n.b)].as_ptr()),
                        O::Or => Z3_mk_or(c, 2, [self.get_bo(x, n.a), self.get_bo(x, n.b)].as_ptr()),
                        O::Xor | O::Add | O::Sub => Z3_mk_xor(c, self.get_bo(x, n.a), self.get_bo(x, n.b)),
                        O::Eq => {
                            if aw == 1 {
                                Z3_mk_eq(c, self.get_bo(x, n.a), self.get_bo(x, n.b))
                            } else {
                                Z3_mk_eq(c, self.get_bv(x, n.a), self.get_bv(x, n.b))
                            }
                        }
                        O::Ult => Z3_mk_bvult(c, self.get_bv(x, n.a), self.get_bv(x, n.b)),
                        O::Ule => Z3_mk_bvule(c, self.get_bv(x, n.a), self.get_bv(x, n.b)),
                        O::Slt => Z3_mk_bvslt(c, self.get_bv(x, n.a), self.get_bv(x, n.b)),
                        O::Sle => Z3_mk_bvsle(c, self.get_bv(x, n.a), self.get_bv(x, n.b)),
                        O::Ite => Z3_mk_ite(c, self.get_bo(x, n.a), self.get_bo(x, n.b), self.get_bo(x, n.c)),
                        O::Extract => {
                            let e = Z3_mk_extract(c, n.k as c_uint, n.k as c_uint, self.get_bv(x, n.a));
                            Z3_mk_eq(c, e, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                        }
                        _ => {
                            let (a, b) = (self.get_bv(x, n.a), self.get_bv(x, n.b));
                            let r = self.arith(n.op, a, b);
                            Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                        }
                    };
                    self.bo.insert(i, t);
                } else {
                    let t = match n.op {
                        O::Var => {
                            let s = Z3_mk_bv_sort(c, n.w as c_uint);
                            let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s);
                            self.vars.insert(n.k as u32, v);
                            v
                        }
                        O::Not => Z3_mk_bvnot(c, self.get_bv(x, n.a)),
                        O::Extract => {
                            Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, self.get_bv(x, n.a))
                        }
                        O::ZExt => Z3_mk_zero_ext(c, n.w as c_uint - x.w(n.a), self.get_bv(x, n.a)),
                        O::SExt => Z3_mk_sign_ext(c, n.w as c_uint - x.w(n.a), self.get_bv(x, n.a)),
                        O::Ite => Z3_mk_ite(c, self.get_bo(x, n.a), self.get_bv(x, n.b), self.get_bv(x, n.c)),
                        O::Concat => Z3_mk_concat(c, self.get_bv(x, n.a), self.get_bv(x, n.b)),
                        _ => {
                            let (a, b) = (self.get_bv(x, n.a), self.get_bv(x, n.b));
                            self.arith(n.op, a, b)
                        }
                    };
                    self.bv.insert(i, t);
                }
            }
        }
    }
    unsafe fn arith(&self, op: O, a: P, b: P) -> P {
        let c = self.c;
        match op {
            O::Add => Z3_mk_bvadd(c, a, b),
            O::Sub => Z3_mk_bvsub(c, a, b),
            O::Mul => Z3_mk_bvmul(c, a, b),
            O::UDiv => Z3_mk_bvudiv(c, a, b),
            O::SDiv => Z3_mk_bvsdiv(c, a, b),
            O::URem => Z3_mk_bvurem(c, a, b),
            O::SRem => Z3_mk_bvsrem(c, a, b),
            O::And => Z3_mk_bvand(c, a, b),
            O::Or => Z3_mk_bvor(c, a, b),
            O::Xor => Z3_mk_bvxor(c, a, b),
            O::Shl => Z3_mk_bvshl(c, a, b),
            O::LShr => Z3_mk_bvlshr(c, a, b),
            O::AShr => Z3_mk_bvashr(c, a, b),
            _ => panic!("arith {:?}", op),
        }
    }

    fn model(&mut self, x: &Ctx, s: P, vars: &[u32]) -> Vec<(u32, u128)> {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let mut out = vec![];
            for v in vars {
                let t = match self.vars.get(v) {
                    Some(t) => *t,
                    None => continue,
                };
                let mut r: P = std::ptr::null_mut();
                Z3_model_eval(self.c, m, t, true, &mut r);
                let w = x.var_w[*v as usize];
                let val = if w == 1 {
                    (Z3_get_bool_value(self.c, r) == 1) as u128
                } else {
                    let mut u = 0u64;
                    if w <= 64 && Z3_get_numeral_uint64(self.c, r, &mut u) {
                        u as u128
                    } else {
                        let p = Z3_get_numeral_string(self.c, r);
                        std::ffi::CStr::from_ptr(p).to_str().unwrap().parse::<u128>().unwrap()
                    }
                };
                out.push((*v, val));
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }

    pub fn known(&self, cons: &[Id]) -> Option<R> {
        let mut key: Vec<Id> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        self.cache.get(&key).cloned()
    }
    /// Decide the conjunction of `cons` (already sliced by the caller).
    pub fn check(&mut self, x: &mut Ctx, cons: &[Id]) -> R {
        let mut key: Vec<Id> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.binary_search(&Ctx::FALSE).is_ok() {
            return R::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return r.clone();
        }
        if self.terms > 3_000_000 {
            self.reset();
        }
        let t0 = Instant::now();
        self.st.queries += 1;
        let mut vars: Vec<u32> = vec![];
        for k in &key {
            vars.extend(x.support(*k).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        for k in &key {
            self.tr(x, *k);
        }
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.simple);
            for k in &key {
                Z3_solver_assert(c, self.simple, self.get_bo(x, *k));
            }
            let mut out = R::Unknown;
            let mut r = 0;
            let deep = key.iter().any(|k| x.depth(*k) > 150);
            if deep {
                // hard for the solver, but perhaps almost any assignment will do
                let mut seed = 0x9e37_79b9_7f4a_7c15u64;
                for round in 0..16 {
                    let vals: Vec<(u32, u128)> = vars
                        .iter()
                        .map(|v| {
                            seed = seed.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
                            let w = x.var_w[*v as usize];
                            (*v, match round {
                                0 => 0,
                                1 => super::expr::ones(w),
                                2 => 1,
                                _ => super::expr::mask((seed >> 13) as u128, w),
                            })
                        })
                        .collect();
                    let mm: FxMap<u32, u128> = vals.iter().cloned().collect();
                    let f = |v: u32| *mm.get(&v).unwrap_or(&0);
                    let mut memo = FxMap::default();
                    if key.iter().all(|k| x.eval(*k, &f, &mut memo) == 1) {
                        out = R::Sat(Rc::new(vals));
                        r = 1;
                        break;
                    }
                }
            }
            if r == 0 {
                r = Z3_solver_check(c, self.simple);
                if r == 1 {
                    let s = self.simple;
                    out = R::Sat(Rc::new(self.model(x, s, &vars)));
                }
            }
            Z3_solver_pop(c, self.simple, 1);
            if r == 0 {
                self.st.hard += 1;
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), self.timeout_ms);
                Z3_solver_set_params(c, s, p);
                Z3_params_dec_ref(c, p);
                for k in &key {
                    Z3_solver_assert(c, s, self.get_bo(x, *k));
                }
                r = Z3_solver_check(c, s);
                if r == 1 {
                    out = R::Sat(Rc::new(self.model(x, s, &vars)));
                }
                Z3_solver_dec_ref(c, s);
            }
            match r {
                1 => {
                    self.st.sat += 1;
                    out
                }
                -1 => {
                    self.st.unsat += 1;
                    R::Unsat
                }
                _ => {
                    self.st.unknown += 1;
                    R::Unknown
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        if dt > 0.001 * self.slow {
            let loc = key.iter().map(|k| x.show(*k, 4)).collect::<Vec<_>>().join(" & ");
            eprintln!("slow {:.1}ms cons={} vars={} terms={} {}", dt * 1e3, key.len(), vars.len(), self.terms, &loc[loc.len().saturating_sub(900)..]);
        }
        if let R::Sat(m) = &r {
            // the model must satisfy the query in our own semantics (guards the translation)
            let mm: FxMap<u32, u128> = m.iter().cloned().collect();
            let f = |v: u32| *mm.get(&v).unwrap_or(&0);
            let mut memo = FxMap::default();
            for k in &key {
                if x.eval(*k, &f, &mut memo) != 1 {
                    eprintln!("FATAL: model does not satisfy constraint {}", x.show(*k, 6));
                    std::process::exit(70);
                }
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}
