//! LZMA as its specification defines it: probability model, range coder, an operation-by-operation encoder
//! and a decoder. Written from the specification; shares nothing with the crate.
pub struct Len {
    choice: [u16; 2],
    low: [[u16; 8]; 16],
    mid: [[u16; 8]; 16],
    high: [u16; 256],
}
impl Len {
    fn new() -> Len {
        Len { choice: [1024; 2], low: [[1024; 8]; 16], mid: [[1024; 8]; 16], high: [1024; 256] }
    }
}
pub struct Model {
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    lit: Vec<u16>,
    is_match: [[u16; 16]; 12],
    is_rep: [u16; 12],
    g0: [u16; 12],
    g1: [u16; 12],
    g2: [u16; 12],
    g0_long: [[u16; 16]; 12],
    slot: [[u16; 64]; 4],
    spec: [[u16; 32]; 10],
    align: [u16; 16],
    len: Len,
    rep_len: Len,
    pub state: usize,
    pub reps: [u32; 4],
    /// the highest distance slot looked at
    pub slots: u32,
}
impl Model {
    pub fn new(lc: u32, lp: u32, pb: u32) -> Model {
        Model {
            lc,
            lp,
            pb,
            lit: vec![1024; 0x300 << (lc + lp)],
            is_match: [[1024; 16]; 12],
            is_rep: [1024; 12],
            g0: [1024; 12],
            g1: [1024; 12],
            g2: [1024; 12],
            g0_long: [[1024; 16]; 12],
            slot: [[1024; 64]; 4],
            spec: [[1024; 32]; 10],
            align: [1024; 16],
            len: Len::new(),
            rep_len: Len::new(),
            state: 0,
            reps: [0; 4],
            slots: 63,
        }
    }
    /// fresh probabilities and state, as a state reset asks for
    pub fn reset(&mut self) {
        *self = Model { slots: self.slots, ..Model::new(self.lc, self.lp, self.pb) };
    }
}
/// The two directions of the arithmetic coder behind one interface: the encoder is told the bit, the decoder
/// finds it.
pub trait Coder {
    fn bit(&mut self, prob: &mut u16, bit: u32) -> Result<u32, ()>;
    fn direct(&mut self, n: u32, v: u32) -> Result<u32, ()>;
}
pub struct Enc {
    pub low: u64,
    pub range: u32,
    cache: u8,
    cache_size: u32,
    pub out: Vec<u8>,
}
impl Enc {
    pub fn new() -> Enc {
        Enc { low: 0, range: 0xffff_ffff, cache: 0, cache_size: 1, out: vec![] }
    }
    fn shift(&mut self) {
        if self.low < 0xff00_0000 || self.low > 0xffff_ffff {
            let c = (self.low >> 32) as u8;
            let mut b = self.cache;
            while self.cache_size > 0 {
                self.out.push(b.wrapping_add(c));
                b = 0xff;
                self.cache_size -= 1;
            }
            self.cache = (self.low >> 24) as u8;
        }
        self.cache_size += 1;
        self.low = (self.low & 0x00ff_ffff) << 8;
    }
    fn norm(&mut self) {
        if self.range < 1 << 24 {
            self.range <<= 8;
            self.shift();
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        for _ in 0..5 {
            self.shift();
        }
        self.out
    }
    /// Everything that is settled, then the four bytes the next decisions are read from.
    pub fn open(mut self) -> (Vec<u8>, u32) {
        let c = (self.low >> 32) as u8;
        let mut b = self.cache;
        while self.cache_size > 0 {
            self.out.push(b.wrapping_add(c));
            b = 0xff;
            self.cache_size -= 1;
        }
        (self.out, self.low as u32)
    }
}
impl Coder for Enc {
    fn bit(&mut self, prob: &mut u16, bit: u32) -> Result<u32, ()> {
        let bound = (self.range >> 11) * *prob as u32;
        if bit == 0 {
            self.range = bound;
            *prob += (2048 - *prob) >> 5;
        } else {
            self.low += bound as u64;
            self.range -= bound;
            *prob -= *prob >> 5;
        }
        self.norm();
        Ok(bit)
    }
    fn direct(&mut self, n: u32, v: u32) -> Result<u32, ()> {
        for i in (0..n).rev() {
            self.range >>= 1;
            if v >> i & 1 == 1 {
                self.low += self.range as u64;
            }
            self.norm();
        }
        Ok(v)
    }
}
pub struct Dec<'a> {
    data: &'a [u8],
    pub pos: usize,
    range: u32,
    pub code: u32,
}
impl<'a> Dec<'a> {
    pub fn new(data: &'a [u8]) -> Result<Dec<'a>, ()> {
        if data.len() < 5 || data[0] != 0 {
            return Err(());
        }
        Ok(Dec { data, pos: 5, range: 0xffff_ffff, code: u32::from_be_bytes([data[1], data[2], data[3], data[4]]) })
    }
    pub fn norm(&mut self) -> Result<(), ()> {
        if self.range < 1 << 24 {
            let b = *self.data.get(self.pos).ok_or(())?;
            self.pos += 1;
            self.range <<= 8;
            self.code = self.code << 8 | b as u32;
        }
        Ok(())
    }
}
impl Coder for Dec<'_> {
    fn bit(&mut self, prob: &mut u16, _: u32) -> Result<u32, ()> {
        self.norm()?;
        let bound = (self.range >> 11) * *prob as u32;
        if self.code < bound {
            self.range = bound;
            *prob += (2048 - *prob) >> 5;
            Ok(0)
        } else {
            self.range -= bound;
            self.code -= bound;
            *prob -= *prob >> 5;
            Ok(1)
        }
    }
    fn direct(&mut self, n: u32, _: u32) -> Result<u32, ()> {
        let mut v = 0u32;
        for _ in 0..n {
            self.norm()?;
            self.range >>= 1;
            let d = self.code.wrapping_sub(self.range);
            let t = 0u32.wrapping_sub(d >> 31); // all ones when the bit is 0
            self.code = d.wrapping_add(self.range & t);
            v = (v << 1).wrapping_add(t.wrapping_add(1));
        }
        Ok(v)
    }
}
fn tree<C: Coder>(c: &mut C, probs: &mut [u16], bits: u32, v: u32) -> Result<u32, ()> {
    let mut m = 1usize;
    for i in (0..bits).rev() {
        m = m << 1 | c.bit(&mut probs[m], v >> i & 1)? as usize;
    }
    Ok(m as u32 - (1 << bits))
}
fn reverse<C: Coder>(c: &mut C, probs: &mut [u16], bits: u32, v: u32) -> Result<u32, ()> {
    let mut m = 1usize;
    let mut r = 0;
    for i in 0..bits {
        let b = c.bit(&mut probs[m], v >> i & 1)?;
        m = m << 1 | b as usize;
        r |= b << i;
    }
    Ok(r)
}
fn length<C: Coder>(c: &mut C, l: &mut Len, ps: usize, v: u32) -> Result<u32, ()> {
    if c.bit(&mut l.choice[0], (v >= 8) as u32)? == 0 {
        return tree(c, &mut l.low[ps], 3, v);
    }
    if c.bit(&mut l.choice[1], (v >= 16) as u32)? == 0 {
        return Ok(8 + tree(c, &mut l.mid[ps], 3, v.wrapping_sub(8))?);
    }
    Ok(16 + tree(c, &mut l.high, 8, v.wrapping_sub(16))?)
}
fn slot_of(d: u32) -> u32 {
    if d < 4 {
        return d;
    }
    let b = 31 - d.leading_zeros();
    b << 1 | d >> (b - 1) & 1
}
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Lit(u8),
    /// distance (0 is the byte before), length (2..=273)
    Match(u32, u32),
    /// which of the last distances, length
    Rep(usize, u32),
    Short,
    End,
}
impl Model {
    /// Codes one operation. `at` is the number of bytes before it since the position was last reset, `out` is
    /// the history it refers to (at most `dict` bytes back), `limit` the number of bytes it may still put out.
    pub fn op<C: Coder>(&mut self, c: &mut C, given: Op, at: usize, out: &mut Vec<u8>, dict: usize, limit: usize) -> Result<Op, ()> {
        let ps = at & ((1 << self.pb) - 1);
        let s = self.state;
        let full = out.len().min(dict);
        if c.bit(&mut self.is_match[s][ps], !matches!(given, Op::Lit(_)) as u32)? == 0 {
            let b = match given {
                Op::Lit(b) => b as u32,
                _ => 0,
            };
            let prev = if full > 0 { out[out.len() - 1] as u32 } else { 0 };
            let ls = ((at as u32 & ((1 << self.lp) - 1)) << self.lc) + (prev >> (8 - self.lc));
            let probs = &mut self.lit[0x300 * ls as usize..][..0x300];
            let mut sym = 1u32;
            if s >= 7 {
                let mut mb = out[out.len() - 1 - self.reps[0] as usize] as u32;
                while sym < 0x100 {
                    let mbit = mb >> 7 & 1;
                    mb <<= 1;
                    let i = 8 - (32 - sym.leading_zeros());
                    let bit = c.bit(&mut probs[((1 + mbit) << 8) as usize + sym as usize], b >> i & 1)?;
                    sym = sym << 1 | bit;
                    if mbit != bit {
                        break;
                    }
                }
            }
            while sym < 0x100 {
                let i = 8 - (32 - sym.leading_zeros());
                sym = sym << 1 | c.bit(&mut probs[sym as usize], b >> i & 1)?;
            }
            out.push(sym as u8);
            self.state = if s < 4 {
                0
            } else if s < 10 {
                s - 3
            } else {
                s - 6
            };
            return Ok(Op::Lit(sym as u8));
        }
        let is_rep = matches!(given, Op::Rep(..) | Op::Short) as u32;
        let len;
        let done;
        if c.bit(&mut self.is_rep[s], is_rep)? == 1 {
            let (idx, wanted) = match given {
                Op::Rep(i, l) => (i, l),
                _ => (0, 0),
            };
            if c.bit(&mut self.g0[s], (idx > 0) as u32)? == 0 {
                if c.bit(&mut self.g0_long[s][ps], (given != Op::Short) as u32)? == 0 {
                    self.state = if s < 7 { 9 } else { 11 };
                    if self.reps[0] as usize >= full {
                        return Err(());
                    }
                    let b = out[out.len() - 1 - self.reps[0] as usize];
                    out.push(b);
                    return Ok(Op::Short);
                }
            } else {
                let d;
                if c.bit(&mut self.g1[s], (idx > 1) as u32)? == 0 {
                    d = self.reps[1];
                } else {
                    if c.bit(&mut self.g2[s], (idx > 2) as u32)? == 0 {
                        d = self.reps[2];
                    } else {
                        d = self.reps[3];
                        self.reps[3] = self.reps[2];
                    }
                    self.reps[2] = self.reps[1];
                }
                self.reps[1] = self.reps[0];
                self.reps[0] = d;
            }
            len = 2 + length(c, &mut self.rep_len, ps, wanted.wrapping_sub(2))?;
            self.state = if s < 7 { 8 } else { 11 };
            done = Op::Rep(idx, len);
        } else {
            let (d, l) = match given {
                Op::Match(d, l) => (d, l),
                _ => (u32::MAX, 2),
            };
            self.reps = [self.reps[0], self.reps[0], self.reps[1], self.reps[2]];
            len = 2 + length(c, &mut self.len, ps, l - 2)?;
            self.state = if s < 7 { 7 } else { 10 };
            let sl = tree(c, &mut self.slot[(len as usize - 2).min(3)], 6, slot_of(d))?;
            crate::rt::assume(sl <= self.slots);
            self.reps[0] = if sl < 4 {
                sl
            } else {
                let n = (sl >> 1) - 1;
                let base = (2 | sl & 1) << n;
                if sl < 14 {
                    base + reverse(c, &mut self.spec[sl as usize - 4], n, d.wrapping_sub(base))?
                } else {
                    let hi = c.direct(n - 4, d.wrapping_sub(base) >> 4)?;
                    base.wrapping_add(hi << 4).wrapping_add(reverse(c, &mut self.align, 4, d.wrapping_sub(base) & 15)?)
                }
            };
            if self.reps[0] == u32::MAX {
                return Ok(Op::End);
            }
            done = Op::Match(self.reps[0], len);
        }
        if self.reps[0] as usize >= full {
            return Err(());
        }
        for _ in 0..(len as usize).min(limit) {
            let b = out[out.len() - 1 - self.reps[0] as usize];
            out.push(b);
        }
        if len as usize > limit {
            return Err(());
        }
        Ok(done)
    }
}
