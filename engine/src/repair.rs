//! Turns the assignment of a path into one that also satisfies another condition, by pushing the wanted value
//! down to the inputs. Only a shortcut to satisfying assignments: each is checked by evaluation, and whatever
//! is not found here (in particular that there is none) is decided by the solver.
use super::expr::{mask, ones, Ctx, FxMap, Id, O};

pub struct Repair<'a> {
    pub x: &'a Ctx,
    pub cur: &'a dyn Fn(Id) -> u128,
    pub set: FxMap<u32, u128>,
    /// which of the alternatives to take at the comparison
    pub choice: u32,
    pub steps: u32,
}
impl Repair<'_> {
    pub fn make(&mut self, e: Id, v: u128) -> bool {
        self.steps += 1;
        if self.steps > 4000 {
            return false;
        }
        let n = self.x.n(e);
        let w = n.w as u32;
        let v = mask(v, w);
        if n.op == O::Const {
            return n.k == v;
        }
        if n.op != O::Var && (self.cur)(e) == v {
            return true;
        }
        let konst = |s: &Self, i: Id| s.x.is_const(i).is_some();
        match n.op {
            O::Const => false,
            O::Var => {
                let k = n.k as u32;
                match self.set.get(&k) {
                    Some(o) => *o == v,
                    None => {
                        self.set.insert(k, v);
                        true
                    }
                }
            }
            O::Not => self.make(n.a, !v),
            O::ZExt => v <= ones(self.x.w(n.a)) && self.make(n.a, v),
            O::SExt => {
                let aw = self.x.w(n.a);
                let t = mask(v, aw);
                mask(super::expr::sx(t, aw) as u128, w) == v && self.make(n.a, t)
            }
            O::Extract => {
                let c = (self.cur)(n.a);
                let m = ones(w) << n.k;
                let low = ones(n.k as u32);
                let rest = c & !m;
                let rest = match self.choice >> 4 {
                    0 => rest & !low,
                    1 => rest | low,
                    _ => rest,
                };
                self.make(n.a, rest | v << n.k)
            }
            O::Concat => {
                let lw = self.x.w(n.b);
                self.make(n.a, v >> lw) && self.make(n.b, mask(v, lw))
            }
            O::Ite => {
                if konst(self, n.b) && konst(self, n.c) {
                    let (b, c) = (self.x.n(n.b).k, self.x.n(n.c).k);
                    return if b == v { self.make(n.a, 1) } else if c == v { self.make(n.a, 0) } else { false };
                }
                if (self.cur)(n.a) == 1 {
                    self.make(n.b, v)
                } else {
                    self.make(n.c, v)
                }
            }
            O::Add | O::Xor | O::Sub => {
                let (a, b) = ((self.cur)(n.a), (self.cur)(n.b));
                let left = konst(self, n.b) || (!konst(self, n.a) && self.choice & 8 == 0);
                match (n.op, left) {
                    (O::Add, true) => self.make(n.a, v.wrapping_sub(b)),
                    (O::Add, false) => self.make(n.b, v.wrapping_sub(a)),
                    (O::Xor, true) => self.make(n.a, v ^ b),
                    (O::Xor, false) => self.make(n.b, v ^ a),
                    (_, true) => self.make(n.a, v.wrapping_add(b)),
                    (_, false) => self.make(n.b, a.wrapping_sub(v)),
                }
            }
            O::And if w > 1 && konst(self, n.b) => {
                let m = self.x.n(n.b).k;
                v & !m == 0 && self.make(n.a, (self.cur)(n.a) & !m | v)
            }
            O::Or if w > 1 && konst(self, n.b) => {
                let m = self.x.n(n.b).k;
                v & m == m && self.make(n.a, (self.cur)(n.a) & m | v & !m)
            }
            O::And | O::Or if w == 1 => {
                if (n.op == O::And) == (v == 1) {
                    self.make(n.a, v) && self.make(n.b, v)
                } else if self.choice & 4 == 0 {
                    self.make(n.a, v)
                } else {
                    self.make(n.b, v)
                }
            }
            O::Shl if konst(self, n.b) => {
                let k = self.x.n(n.b).k;
                if k >= w as u128 || v & ones(k as u32) != 0 {
                    return false;
                }
                let keep = !(ones(w) >> k) & ones(w);
                self.make(n.a, (self.cur)(n.a) & keep | v >> k)
            }
            O::LShr if konst(self, n.b) => {
                let k = self.x.n(n.b).k;
                if k >= w as u128 || v > ones(w) >> k {
                    return false;
                }
                self.make(n.a, v << k | (self.cur)(n.a) & ones(k as u32))
            }
            O::Mul if konst(self, n.b) => {
                let k = self.x.n(n.b).k;
                k != 0 && v % k == 0 && self.make(n.a, v / k)
            }
            O::Eq => {
                let (a, b) = ((self.cur)(n.a), (self.cur)(n.b));
                if v == 1 {
                    if konst(self, n.b) || (!konst(self, n.a) && self.choice & 1 == 0) {
                        self.make(n.a, b)
                    } else {
                        self.make(n.b, a)
                    }
                } else {
                    let (t, o) = if konst(self, n.b) { (n.a, b) } else { (n.b, a) };
                    let n = match self.choice & 3 {
                        0 => o ^ 1,
                        1 => o.wrapping_add(1),
                        2 => o.wrapping_sub(1),
                        _ => !o,
                    };
                    self.make(t, n)
                }
            }
            O::Ult | O::Ule | O::Slt | O::Sle => {
                let aw = self.x.w(n.a);
                let (a, b) = ((self.cur)(n.a), (self.cur)(n.b));
                // a < b, or b <= a
                let strict = (matches!(n.op, O::Ult | O::Slt)) == (v == 1);
                let (lo, hi, vlo, vhi) = if v == 1 { (n.a, n.b, a, b) } else { (n.b, n.a, b, a) };
                let d = strict as u128;
                let signed = matches!(n.op, O::Slt | O::Sle);
                let (least, most) = if signed { (1u128 << (aw - 1), ones(aw) >> 1) } else { (0, ones(aw)) };
                let down = !konst(self, lo) && (konst(self, hi) || self.choice & 1 == 0);
                if down {
                    if strict && vhi == least {
                        return false;
                    }
                    self.make(lo, if self.choice & 2 == 0 { vhi.wrapping_sub(d) } else { least })
                } else {
                    if strict && vlo == most {
                        return false;
                    }
                    self.make(hi, if self.choice & 2 == 0 { vlo.wrapping_add(d) } else { most })
                }
            }
            _ => false,
        }
    }
}
