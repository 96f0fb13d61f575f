//! The arithmetic coder, the match finder's positions, BCJ2 and dictionary sizes (through the guarded hooks).
use crate::lzma_enc::{feed, same, steps};
use crate::lzma_ref::{Coder, Enc};
use crate::util::{p, Src};
use crate::{check, rt};
use lzma_rust::vse_hooks::{RangeDecoder, RangeEncoder};
use lzma_rust::*;
use std::io::Read;

/// What an arithmetic coder stands for: an exact number and the width of the interval above it.
struct Exact {
    v: u64,
    range: u32,
    shifts: u32,
}
impl Exact {
    fn norm(&mut self) {
        if self.range < 1 << 24 {
            self.range <<= 8;
            self.v <<= 8;
            self.shifts += 1;
        }
    }
    fn bit(&mut self, prob: &mut u16, bit: u32) {
        let bound = (self.range >> 11) * *prob as u32;
        if bit == 0 {
            self.range = bound;
            *prob += (2048 - *prob) >> 5;
        } else {
            self.v += bound as u64;
            self.range -= bound;
            *prob -= *prob >> 5;
        }
        self.norm();
    }
    fn direct(&mut self, bit: u32) {
        self.range >>= 1;
        if bit == 1 {
            self.v += self.range as u64;
        }
        self.norm();
    }
}
/// cache, then all but one of `size` bytes 0xff, then low
fn number(low: u64, cache: u8, size: u32) -> u64 {
    let mut v = cache as u64;
    for _ in 1..size {
        v = v << 8 | 0xff;
    }
    (v << 32).wrapping_add(low)
}
/// Any probability with one range, or one of some with any range.
fn prob(range: &mut u32) -> u16 {
    let k = rt::choose(14);
    if k < 8 {
        let r = [0x100_0000, 0x100_0800, 0x1234_5678, 0x7fff_ffff, 0x8000_0000, 0xaaaa_aaaa, 0xffff_f800, 0xffff_ffff][k];
        let p = rt::u16();
        rt::assume(p >= 31 && p <= 2017);
        rt::assume(*range == r);
        *range = r;
        return p;
    }
    32 << (k - 8)
}
/// Any state of the encoder. params: bytes held back, operation (0 bit, 1 direct bits, 2 end), how many
pub fn h_range_enc() {
    let (size, op, n) = (p(0) as u32, p(1), p(2) as u32);
    let (low, mut range, cache) = (rt::u64(), rt::u32(), rt::u8());
    rt::assume(range >= 1 << 24 && low <= (2 << 32) - range as u64);
    // the number stays within the bytes held back and the four of low
    let v = number(low, cache, size);
    rt::assume(v <= (1u64 << (8 * size + 32)) - range as u64);
    let mut out = vec![];
    let mut e = RangeEncoder::vse_new(&mut out, low, range, cache, size);
    let mut x = Exact { v, range, shifts: 0 };
    let mut ok = true;
    let mut probs = [prob(&mut range)];
    match op {
        0 => {
            let mut prob = probs[0];
            let bit = rt::u8() as u32 & 1;
            ok &= e.encode_bit(&mut probs, 0, bit).is_ok();
            x.bit(&mut prob, bit);
            check!(prob == probs[0] && prob >= 31 && prob <= 2017);
        }
        1 => {
            let v = rt::u32();
            rt::assume(v < 1 << n);
            ok &= e.encode_direct_bits(v, n).is_ok();
            for i in (0..n).rev() {
                x.direct(v >> i & 1);
            }
        }
        _ => {
            ok &= e.finish().is_ok();
            // everything is out: the number, big endian (the last of the bytes held back are zeros)
            let (_, _, _, _) = e.vse_state();
            drop(e);
            check!(ok && out.len() as u32 == size + 4);
            let mut got = 0u64;
            for b in out {
                got = got << 8 | b as u64;
            }
            rt::reach(1);
            check!(got == v);
            return;
        }
    }
    let (low2, range2, cache2, size2) = e.vse_state();
    drop(e);
    check!(ok && range2 == x.range && range2 >= 1 << 24 && low2 <= (2 << 32) - range2 as u64);
    check!(out.len() as u32 + size2 == size + x.shifts);
    let size2 = rt::concretize(size2 as u64) as u32;
    let mut v2 = 0u64;
    for &b in &out {
        v2 = v2 << 8 | b as u64;
    }
    let held = number(low2, cache2, size2);
    check!(size2 > 3 || held <= (1u64 << (8 * size2 + 32)) - range2 as u64);
    if !out.is_empty() && size2 < 4 {
        v2 <<= 8 * size2 + 32;
    }
    rt::reach(1);
    check!(v2.wrapping_add(held) == x.v);
}
/// What the encoder put into a state the decoder takes out of it. params: operation (0 bit, 1 direct bits), how many
pub fn h_range_dec() {
    let (op, n) = (p(0), p(1) as u32);
    let (mut range, next) = (rt::u32(), rt::u32());
    rt::assume(range >= 1 << 24);
    let mut x = Exact { v: 0, range, shifts: 0 };
    let data: Vec<u8> = next.to_be_bytes().to_vec();
    let mut probs = [prob(&mut range)];
    let mut mine = probs[0];
    let (bit, v) = (rt::u8() as u32 & 1, rt::u32());
    rt::assume(v < 1 << n);
    match op {
        0 => x.bit(&mut mine, bit),
        _ => (0..n).rev().for_each(|i| x.direct(v >> i & 1)),
    }
    // somewhere in the interval the encoder has chosen; the last of the code's bytes are the next of the stream
    let inside = rt::u32();
    rt::assume(inside < x.range);
    let shifts = rt::concretize(x.shifts as u64) as u32;
    check!(shifts < 4);
    let mut tail = 0u64;
    for i in 0..shifts {
        tail = tail << 8 | data[i as usize] as u64;
    }
    let code = x.v + inside as u64;
    rt::assume(code & ((1u64 << (8 * shifts)) - 1) == tail);
    let code = code >> (8 * shifts);
    check!(code < range as u64);
    let mut d = RangeDecoder::vse_new(Src::new(data, 0), range, code as u32);
    match op {
        0 => {
            let mut prob = probs[0];
            let r = d.decode_bit(&mut prob);
            check!(r.is_ok() && r.unwrap_or(9) as u32 == bit && prob == mine);
            probs[0] = prob;
        }
        _ => {
            let r = d.decode_direct_bits(n);
            check!(r.is_ok() && r.unwrap_or(-1) as u32 == v);
        }
    }
    check!(d.normalize().is_ok());
    rt::reach(1);
    check!(d.vse_state() == (x.range, inside));
}
/// The match finder's position wraps around somewhere in the data and nothing changes.
/// params: as h_lzma_enc, then how many bytes before the end of the positions it starts (at most)
pub fn h_lzma_pos() {
    let (codec, lclppb, nice, near) = (p(1), p(2), p(3), p(4));
    let mut o = LZMA2Options::with_preset((codec >> 8 & 15) as u32);
    o.mode = LZMA2Options::with_preset((codec >> 4 & 15) as u32).mode;
    o.lc = lclppb as u32 & 15;
    o.lp = lclppb as u32 >> 4 & 15;
    o.pb = lclppb as u32 >> 8 & 15;
    o.dict_size = (lclppb >> 12) as u32;
    o.nice_len = nice as u32 & 0xfff;
    o.depth_limit = (nice >> 12) as i32;
    let (steps, _) = steps(rt::param(0));
    let run = |pos: Option<i32>| {
        let mut out = vec![];
        let mut w = LZMA2Writer::new(CountingWriter::new(&mut out), &o);
        if let Some(pos) = pos {
            w.vse_set_pos(pos);
        }
        let mut ok = feed(&mut w, &steps);
        ok &= w.finish().is_ok();
        check!(ok);
        drop(w);
        out
    };
    let a = run(None);
    let b = run(Some(i32::MAX - 1 - rt::choose(near as u64) as i32));
    rt::reach(1);
    check!(same(&a, &b));
}
#[cfg(vse_hooks)]
/// The dictionary size recorded for LZMA2 covers the one used, for LZMA it is the one used; and the reader takes it.
/// params: 0 LZMA2, 1 LZMA
pub fn h_dict_size() {
    use sevenz_rust::*;
    let lzma2 = p(0) == 0;
    let mut o = LZMA2Options::with_preset(6);
    o.dict_size = rt::u32();
    rt::assume(o.dict_size > 0);
    let dict = o.dict_size;
    o.lc = rt::choose(5) as u32;
    o.pb = rt::choose(5) as u32;
    o.lp = if o.lc < 3 { 2 } else { 0 };
    let props = o.get_props();
    let m = if lzma2 { SevenZMethod::LZMA2 } else { SevenZMethod::LZMA };
    let w = SevenZWriter::new(Src::new(vec![], 0));
    check!(w.is_ok());
    let Ok(mut w) = w else { return };
    w.vse_add_folder(vec![SevenZMethodConfiguration { method: m, options: Some(MethodOptions::LZMA2(o)) }], 9, 1, vec![9], 1, None);
    let mut e = SevenZArchiveEntry::default();
    e.name = "a".into();
    e.has_stream = true;
    e.size = 9;
    e.has_crc = true;
    e.crc = 1;
    e.compressed_size = 9;
    w.vse_add_file(e);
    let h = w.vse_header();
    check!(h.is_ok());
    let Ok(h) = h else { return };
    let a = crate::util::archive(&[0; 9], &h);
    let n = a.len() as u64;
    let r = Archive::read(&mut std::io::Cursor::new(a), n, &[]);
    check!(r.is_ok());
    let Ok(r) = r else { return };
    let c = &r.folders[0].coders[0].properties;
    rt::reach(1);
    if lzma2 {
        check!(c.len() == 1 && c[0] <= 40);
        let b = c[0] as u64;
        let size = if b == 40 { 0xffff_ffff } else { (2 | b & 1) << (b / 2 + 11) };
        check!(size >= dict as u64 && (b == 0 || (2 | (b - 1) & 1) << ((b - 1) / 2 + 11) < dict as u64));
    } else {
        check!(c.len() == 5 && c[0] == props && c[1..5] == dict.to_le_bytes());
    }
}
/// What a dictionary size property means to the reader. params: 0 LZMA2, 1 LZMA; bytes
pub fn h_dict_read() {
    let (lzma2, n) = (p(0) == 0, p(1));
    let c = rt::vec(n);
    let r = sevenz_rust::vse_hooks_lz::vse_dictionary(lzma2, &c);
    rt::reach(1);
    if lzma2 {
        if n == 0 || c[0] > 40 {
            rt::reach(2);
            check!(r.is_err());
        } else {
            let b = c[0] as u64;
            let size = if b == 40 { 0xffff_ffff } else { (2 | b & 1) << (b / 2 + 11) };
            check!(r.is_ok() && r.unwrap_or(0) as u64 == size);
        }
    } else if n < 5 {
        rt::reach(2);
        check!(r.is_err());
    } else {
        check!(r.is_ok() && r.unwrap_or(0) == u32::from_le_bytes([c[1], c[2], c[3], c[4]]));
    }
}

fn is_jump(prev: u8, b: u8) -> bool {
    b & 0xfe == 0xe8 || prev == 0x0f && b & 0xf0 == 0x80
}
/// BCJ2 as 7-zip defines it: the four streams of `data`, given which branches are converted.
fn bcj2_split(data: &[u8], start: u32, mut take: impl FnMut(usize) -> bool) -> [Vec<u8>; 4] {
    let mut probs = [1024u16; 258];
    let mut e = Enc::new();
    let mut s: [Vec<u8>; 3] = Default::default();
    let mut prev = 0;
    let mut i = 0;
    while i < data.len() {
        let b = data[i];
        s[0].push(b);
        i += 1;
        if !is_jump(prev, b) {
            prev = b;
            continue;
        }
        let k = if b == 0xe8 { 2 + prev as usize } else { (b == 0xe9) as usize };
        let yes = data.len() - i >= 4 && take(i);
        let _ = e.bit(&mut probs[k], yes as u32);
        prev = b;
        if yes {
            let v = u32::from_le_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]);
            i += 4;
            let dest = v.wrapping_add(start.wrapping_add(i as u32));
            s[if b == 0xe8 { 1 } else { 2 }].extend_from_slice(&dest.to_be_bytes());
            prev = data[i - 1];
        }
    }
    let [a, b, c] = s;
    [a, b, c, e.finish()]
}
/// params: data, one piece per hexadecimal digit; read size; source read size; where the stream starts (0 the
/// beginning, 1 anywhere); bytes cut off the stream whose number is in the upper digits
pub fn h_bcj2() {
    let (mut plan, chunk, smax, any) = (rt::param(0), p(1), p(2), p(3) == 1);
    let (cut, which) = (p(4) & 0xff, p(4) >> 8);
    let mut data = vec![];
    let mut takes = vec![];
    while plan != 0 {
        let d = plan >> 60;
        plan <<= 4;
        match d {
            1 => data.extend_from_slice(&[0x55, 0x8b, 0xec]),
            2 => data.push(0xe8),
            3 => data.push(0xe9),
            4 => data.extend_from_slice(&[0x0f, 0x84]),
            // an operand: any if it is converted
            5 => {
                let yes = rt::choose(2) == 1;
                takes.push((data.len(), yes));
                data.extend_from_slice(&if yes { rt::u32().to_le_bytes() } else { [0xe8, 0x0f, 0x83, 0] });
            }
            6 => data.extend_from_slice(&[0x10, 0, 0, 0]),
            7 => data.push(0x0f),
            8 => data.push(rt::u8()),
            9 => data.extend((0..70u8).map(|i| i ^ 0x33)),
            10 => data.push([0, 0x0f, 0x80, 0x8f, 0xe8, 0xe9, 0xea, 0xff][rt::choose(8)]),
            11 => data.resize(data.len() + (1 << 18) - 4, 0x90),
            12 => data.push(0x80),
            _ => data.push(0xff),
        }
    }
    let start = if any { rt::u32() } else { 0 };
    let mut s = bcj2_split(&data, start, |i| takes.iter().find(|t| t.0 == i).map_or_else(|| rt::choose(2) == 1, |t| t.1));
    let short = cut > 0 && s[which].len() >= cut;
    if short {
        let n = s[which].len() - cut;
        s[which].truncate(n);
    }
    let src = s.into_iter().map(|d| Src::new(d, smax)).collect();
    let mut r = sevenz_rust::vse_hooks_lz::BCJ2Reader::new(src, data.len() as u64);
    if any {
        r.vse_set_pos(start);
    }
    let mut got = vec![];
    let mut buf = vec![0; chunk];
    let res = loop {
        match r.read(&mut buf) {
            Ok(0) => break true,
            Ok(n) => got.extend_from_slice(&buf[..n]),
            Err(_) => break false,
        }
        if got.len() > data.len() {
            break true;
        }
    };
    rt::reach(1);
    if short {
        // never the whole data out of less than its streams; never other data
        check!(!res || got.len() < data.len() || which == 3 && cut <= 4);
        check!(got.len() <= data.len() && same(&got, &data[..got.len()]));
    } else {
        check!(res && same(&got, &data));
    }
}
/// Any arithmetic code. params: main stream by the digits of h_bcj2's data, symbolic bytes of the code, read size,
/// source read size
pub fn h_bcj2_any() {
    let (mut plan, n, chunk, smax) = (rt::param(0), p(1), p(2), p(3));
    let mut main = vec![];
    while plan != 0 {
        let d = plan >> 60;
        plan <<= 4;
        match d {
            1 => main.extend_from_slice(&[0x55, 0x8b]),
            2 => main.push(0xe8),
            3 => main.push(0xe9),
            4 => main.extend_from_slice(&[0x0f, 0x84]),
            7 => main.push(0x0f),
            12 => main.push(0x80),
            _ => main.push(0xff),
        }
    }
    let call: Vec<u8> = (0..12).map(|i| 0x11 * i).collect();
    let jump: Vec<u8> = (0..8).map(|i| 0xf0 - 0x0d * i).collect();
    let mut rc = vec![0];
    rc.extend_from_slice(&rt::vec(n));
    rc.resize(5 + main.len() + 40, 0);
    // by the format
    let size = main.len() + 8;
    let mut out: Vec<u8> = vec![];
    let (mut range, mut code) = (0xffff_ffffu32, u32::from_be_bytes([rc[1], rc[2], rc[3], rc[4]]));
    let mut at = 5;
    let mut probs = [1024u16; 258];
    let (mut i, mut c, mut j, mut prev) = (0, 0, 0, 0u8);
    let bad = code == 0xffff_ffff;
    let mut lacking = false;
    while !bad && out.len() < size {
        if i == main.len() {
            lacking = true;
            break;
        }
        let b = main[i];
        i += 1;
        out.push(b);
        if !is_jump(prev, b) {
            prev = b;
            continue;
        }
        let k = if b == 0xe8 { 2 + prev as usize } else { (b == 0xe9) as usize };
        if range < 1 << 24 {
            range <<= 8;
            code = code << 8 | rc[at] as u32;
            at += 1;
        }
        let bound = (range >> 11) * probs[k] as u32;
        prev = b;
        if code < bound {
            range = bound;
            probs[k] += (2048 - probs[k]) >> 5;
            continue;
        }
        code -= bound;
        range -= bound;
        probs[k] -= probs[k] >> 5;
        let (s, q) = if b == 0xe8 { (&call, &mut c) } else { (&jump, &mut j) };
        if *q + 4 > s.len() {
            lacking = true;
            break;
        }
        let v = u32::from_be_bytes([s[*q], s[*q + 1], s[*q + 2], s[*q + 3]]).wrapping_sub(out.len() as u32 + 4);
        *q += 4;
        for b in v.to_le_bytes() {
            if out.len() < size {
                out.push(b);
            }
        }
        prev = (v >> 24) as u8;
    }
    let src = [main, call, jump, rc].into_iter().map(|d| Src::new(d, smax)).collect();
    let mut r = sevenz_rust::vse_hooks_lz::BCJ2Reader::new(src, size as u64);
    let mut got = vec![];
    let mut buf = vec![0; chunk];
    let res = loop {
        match r.read(&mut buf) {
            Ok(0) => break true,
            Ok(n) => got.extend_from_slice(&buf[..n]),
            Err(_) => break false,
        }
        if got.len() > size {
            break true;
        }
    };
    rt::reach(1);
    check!(got.len() <= out.len() && same(&got, &out[..got.len()]));
    if bad {
        rt::reach(2);
        check!(!res && got.is_empty());
    } else if lacking {
        rt::reach(3);
        check!(!res || got.len() < size);
    } else {
        rt::reach(4);
        // whole, or refused for what is left in the code
        check!(res && got.len() == size || !res && got.len() + chunk >= size);
    }
}
