//! LZMA and LZMA2: what is decoded is what the format says, whatever the bytes are.
use crate::lzma_ref::*;
use crate::util::{p, Src};
use crate::{check, rt};
use lzma_rust::*;
use std::io::Read;

/// Bytes in which no two neighbours repeat soon.
pub fn noise(n: usize) -> Vec<u8> {
    (0..n as u32).map(|i| (i.wrapping_mul(151) ^ i >> 3 ^ 0x35) as u8).collect()
}
/// A sequence of operations, one per hexadecimal digit of `plan`, first digit first.
pub fn plan(mut plan: u64) -> Vec<Op> {
    let mut v = vec![];
    let mut k = 0u32;
    while plan != 0 {
        let d = plan >> 60;
        plan <<= 4;
        if d == 0 {
            continue;
        }
        k += 1;
        v.push(match d {
            1 => Op::Lit(0x41 + (k * 37) as u8 % 180),
            2 => Op::Match(k, 2),
            3 => Op::Rep(0, 2 + k),
            4 => Op::Rep(1, 3),
            5 => Op::Rep(2, 2),
            6 => Op::Rep(3, 4),
            7 => Op::Short,
            8 => Op::Match(3 * k, 11),
            9 => Op::Match(20 + k, 40),
            10 => Op::Match(90 + 7 * k, 5),
            11 => Op::Match(300 + k, 3),
            12 => Op::Match(2500 + 33 * k, 4),
            13 => Op::Rep(0, 30),
            14 => Op::Rep(0, 273),
            _ => Op::Match(0, 273),
        });
    }
    v
}
/// Reads until `want` bytes, the end, or an error.
fn read(r: &mut dyn Read, chunk: usize, want: usize) -> (Vec<u8>, Result<bool, ()>) {
    let mut out = Vec::new();
    let mut buf = vec![0u8; chunk];
    while out.len() < want {
        let n = chunk.min(want - out.len());
        match r.read(&mut buf[..n]) {
            Ok(0) => return (out, Ok(true)),
            Ok(k) => out.extend_from_slice(&buf[..k]),
            Err(_) => return (out, Err(())),
        }
    }
    (out, Ok(false))
}
/// params: plan, lc | lp << 4 | pb << 8 | log2 of dictionary << 12, preset bytes, log2 of shards, shard,
/// further symbolic bytes, bytes wanted after the plan + 1000 * whole operations wanted, read size, source read size,
/// highest distance slot
pub fn h_lzma() {
    let (pl, lclppb, pre, bits, shard, more, want, chunk, smax, slots) = (rt::param(0), p(1), p(2), p(3) as u32, p(4) as u64, p(5), p(6), p(7), p(8), p(9));
    let (lc, lp, pb, dict) = (lclppb as u32 & 15, lclppb as u32 >> 4 & 15, lclppb as u32 >> 8 & 15, 1usize << (lclppb >> 12));
    let preset = noise(pre);
    let mut m = Model::new(lc, lp, pb);
    let mut e = Enc::new();
    let mut out = preset.clone();
    for op in plan(pl) {
        let at = out.len();
        check!(m.op(&mut e, op, at, &mut out, dict, usize::MAX).is_ok());
    }
    let done = out.len() - pre;
    let range = e.range as u64;
    let (mut data, low) = e.open();
    let x = rt::u32();
    let top = range.min(0x1_0000_0000 - low as u64);
    rt::assume(x as u64 >= (range * shard >> bits) && (x as u64) < (range * (shard + 1) >> bits).min(top));
    data.extend_from_slice(&(low.wrapping_add(x)).to_be_bytes());
    data.extend_from_slice(&rt::vec(more));
    data.extend_from_slice(&[0; 40]);
    // what the format says
    let mut total = done + want % 1000;
    let mut m = Model::new(lc, lp, pb);
    m.slots = slots as u32;
    let mut out = preset.clone();
    let mut left = want / 1000;
    let end = (|| {
        let mut d = Dec::new(&data)?;
        while out.len() < pre + total || left > 0 {
            let at = out.len();
            if at >= pre + done && left > 0 {
                left -= 1;
            }
            if m.op(&mut d, Op::End, at, &mut out, dict, usize::MAX)? == Op::End {
                d.norm()?;
                return Ok(true);
            }
        }
        Ok(false)
    })();
    let expect = &out[pre..];
    total = total.max(expect.len());
    // what the crate does
    let r = LZMAReader::new(Src::new(data, smax), u64::MAX, lc, lp, pb, dict as u32, Some(&preset));
    check!(r.is_ok());
    let mut r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    let (got, res) = read(&mut r, chunk, total);
    rt::reach(1);
    match end {
        Err(()) => {
            rt::reach(2);
            check!(res.is_err() && got.len() <= expect.len());
            check!(r.read(&mut [0; 5]).is_err());
        }
        Ok(false) => {
            rt::reach(3);
            check!(res == Ok(false) && got.len() == total);
        }
        Ok(true) => {
            rt::reach(4);
            check!(res == Ok(true) && got.len() == expect.len());
        }
    }
    let mut same = true;
    for i in 0..got.len().min(expect.len()) {
        same &= got[i] == expect[i];
    }
    check!(same);
}

/// What an LZMA2 stream stands for: the bytes before the end or the first fault, and whether there is a fault.
/// `win` is the history, at most `dict` bytes of which may be referred to.
pub fn lzma2(data: &[u8], dict: usize, preset: &[u8], slots: u32) -> (Vec<u8>, bool) {
    let mut all = vec![];
    let mut win = preset[preset.len() - preset.len().min(dict)..].to_vec();
    let mut need_dict = preset.is_empty();
    let mut m: Option<Model> = None;
    let mut need_props = true;
    let p = std::cell::Cell::new(0);
    let ok = (|| -> Result<(), ()> {
        loop {
            let take = |n: usize| -> Result<&[u8], ()> {
                let s = data.get(p.get()..p.get() + n).ok_or(())?;
                p.set(p.get() + n);
                Ok(s)
            };
            let c = take(1)?[0];
            if c == 0 {
                return Ok(());
            }
            if c == 1 || c >= 0xe0 {
                win.clear();
                need_dict = false;
                need_props = true;
            }
            if need_dict || c > 2 && c < 0x80 {
                return Err(());
            }
            let s = take(2)?;
            let size = ((s[0] as usize) << 8) + s[1] as usize + 1;
            if c < 0x80 {
                let s = take(size.min(data.len() - p.get()))?;
                win.extend_from_slice(s);
                all.extend_from_slice(s);
                if s.len() < size {
                    return Err(());
                }
                continue;
            }
            let size = size + ((c as usize & 0x1f) << 16);
            let s = take(2)?;
            let packed = ((s[0] as usize) << 8) + s[1] as usize + 1;
            if c >= 0xc0 {
                let b = take(1)?[0] as u32;
                if b >= 225 || b % 9 + b / 9 % 5 > 4 {
                    return Err(());
                }
                m = Some(Model::new(b % 9, b / 9 % 5, b / 45));
                need_props = false;
            } else if need_props {
                return Err(());
            }
            let m = m.as_mut().ok_or(())?;
            if c >= 0xa0 {
                m.reset();
            }
            m.slots = slots;
            let body = take(packed)?;
            let mut d = Dec::new(body)?;
            let end = win.len() + size;
            let from = win.len();
            let mut r = Ok(());
            while win.len() < end && r.is_ok() {
                let (at, left) = (win.len(), end - win.len());
                r = match m.op(&mut d, Op::End, at, &mut win, dict, left) {
                    Ok(Op::End) | Err(()) => Err(()),
                    _ => Ok(()),
                };
            }
            all.extend_from_slice(&win[from..]);
            r?;
            d.norm()?;
            if d.pos != packed || d.code != 0 {
                return Err(());
            }
        }
    })();
    (all, ok.is_err())
}
/// An LZMA2 stream: one chunk per byte of `seq`, first byte first. The low bits of a byte say which control
/// it has, the high ones which operations (or how many plain bytes) it holds.
/// Returns the stream and where the headers are.
fn chunks(seq: u64, props: u8, dict: usize, preset: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let plans = [0x1100_0000_0000_0000u64, 0x11f2_8370_0000_0000, 0x1347_8910_0000_0000, 0x7126_45ab_0000_0000, 0x11ce_3c20_0000_0000, 0x3d14_5678_0000_0000];
    let plain = [1, 7, 300, 4095, 5000, 65536];
    let b = props as u32;
    let mut m = Model::new(b % 9, b / 9 % 5, b / 45);
    let mut win = preset[preset.len() - preset.len().min(dict)..].to_vec();
    let (mut s, mut heads) = (vec![], vec![]);
    for k in 0..8 {
        let c = (seq >> (8 * k)) as u8;
        if c == 0 {
            break;
        }
        let what = (c >> 3) as usize;
        heads.push(s.len());
        let control = [0, 1, 2, 0x80, 0xa0, 0xc0, 0xe0, 3][c as usize & 7];
        if control == 1 || control >= 0xe0 {
            win.clear();
        }
        if control < 0x80 {
            let d = &noise(plain[what] + k)[k..];
            win.extend_from_slice(d);
            s.push(control);
            s.extend_from_slice(&(d.len() as u16).wrapping_sub(1).to_be_bytes());
            s.extend_from_slice(d);
            continue;
        }
        if control >= 0xa0 {
            m.reset();
        }
        let mut e = Enc::new();
        let from = win.len();
        for op in plan(plans[what]) {
            let at = win.len();
            check!(m.op(&mut e, op, at, &mut win, dict, usize::MAX).is_ok());
        }
        let d = e.finish();
        s.push(control);
        s.extend_from_slice(&((win.len() - from - 1) as u16).to_be_bytes());
        s.extend_from_slice(&((d.len() - 1) as u16).to_be_bytes());
        if control >= 0xc0 {
            s.push(props);
        }
        s.extend_from_slice(&d);
    }
    heads.push(s.len());
    s.push(0);
    (s, heads)
}
/// params: chunks, which bytes of the stream are arbitrary (chunk << 8 | bit set over its first eight bytes, 16
/// bits per chunk), properties byte | log2 of dictionary << 8, preset bytes, bytes cut off the end, read size,
/// source read size, highest distance slot, arbitrary bytes inside a chunk (count | chunk << 8 | offset << 16)
pub fn h_lzma2() {
    let (seq, sym, pd, pre, cut, chunk, smax, slots) = (rt::param(0), rt::param(1), p(2), p(3), p(4), p(5), p(6), p(7) as u32);
    let (props, dict) = (pd as u8, 1usize << (pd >> 8));
    let preset = noise(pre);
    let (mut s, heads) = chunks(seq, props, dict, &preset);
    for i in 0..4 {
        let f = sym >> (16 * i);
        for bit in 0..8 {
            if f >> bit & 1 == 1 {
                let x = rt::u8();
                // which kind of chunk, and whether there are 64 KiB more, are left open; sizes are taken one by one
                s[heads[(f >> 8 & 0xff) as usize] + bit] = match bit {
                    0 if x >= 0x80 => x & 0xe0 | rt::choose(2) as u8,
                    0 => x,
                    _ => rt::concretize(x as u64) as u8,
                };
            }
        }
    }
    for i in 0..p(8) & 0xff {
        // arbitrary contents
        let at = heads[p(8) >> 8 & 0xff] + (p(8) >> 16) + i;
        s[at] = rt::u8();
    }
    let n = if cut > 0 { s.len() - rt::choose((cut + 1).min(s.len()) as u64) } else { s.len() };
    s.truncate(n);
    let (want, bad) = lzma2(&s, dict, &preset, slots);
    let mut r = LZMA2Reader::new(Src::new(s, smax), dict as u32, Some(&preset[..]).filter(|p| !p.is_empty()));
    let (got, res) = read(&mut r, chunk, usize::MAX);
    rt::reach(1);
    if bad {
        rt::reach(2);
        check!(res.is_err() && got.len() <= want.len());
        check!(r.read(&mut [0; 5]).is_err());
    } else {
        rt::reach(3);
        check!(res == Ok(true) && got.len() == want.len());
        check!(matches!(r.read(&mut [0; 5]), Ok(0)));
    }
    let mut same = true;
    for i in 0..got.len().min(want.len()) {
        same &= got[i] == want[i];
    }
    check!(same);
}

/// What an LZMA stream without a header stands for, `size` bytes of it or all up to the end marker.
pub fn lzma(data: &[u8], m: &mut Model, dict: usize, preset: &[u8], size: u64) -> (Vec<u8>, bool) {
    let mut win = preset[preset.len() - preset.len().min(dict)..].to_vec();
    let from = win.len();
    let ok = (|| -> Result<(), ()> {
        let mut d = Dec::new(data)?;
        loop {
            let left = size - (win.len() - from) as u64;
            if left == 0 {
                return Ok(());
            }
            let at = win.len();
            let limit = if left < 1 << 40 { left as usize } else { 1 << 40 };
            if m.op(&mut d, Op::End, at, &mut win, dict, limit)? == Op::End {
                return if size == u64::MAX { d.norm() } else { Err(()) };
            }
        }
    })();
    (win.split_off(from), ok.is_err())
}
/// The size that is asked for may be any; properties, dictionary size and memory limit may be any, too.
/// params: plan, lc | lp << 4 | pb << 8 | log2 of dictionary << 12, preset bytes, end marker (1), how it is opened
/// (0: parameters, 1: properties byte, 2: header; 4: any properties; 8: any dictionary size; 16: any memory limit),
/// read size, source read size, bytes after the stream, highest size looked at (0: all)
pub fn h_lzma_size() {
    let (pl, lclppb, pre, marker, how, chunk, smax, after, top) = (rt::param(0), p(1), p(2), p(3) == 1, p(4), p(5), p(6), p(7), rt::param(8));
    let (lc, lp, pb, mut dict) = (lclppb as u32 & 15, lclppb as u32 >> 4 & 15, lclppb as u32 >> 8 & 15, 1u32 << (lclppb >> 12));
    let preset = noise(pre);
    let mut m = Model::new(lc, lp, pb);
    let mut e = Enc::new();
    let mut out = preset.clone();
    for op in plan(pl) {
        let at = out.len();
        check!(m.op(&mut e, op, at, &mut out, dict as usize, usize::MAX).is_ok());
    }
    if marker {
        let at = out.len();
        check!(m.op(&mut e, Op::End, at, &mut out, dict as usize, usize::MAX) == Ok(Op::End));
    }
    let mut data = e.finish();
    data.extend_from_slice(&noise(after));
    let mut size = rt::u64();
    // all that can be had from these bytes at most
    let all = lzma(&data, &mut Model::new(lc, lp, pb), (dict as usize).max(4096), &preset, u64::MAX).0.len() as u64;
    if size <= all + chunk as u64 + 2 {
        size = rt::concretize(size);
    } else if size < 2 * dict as u64 {
        // around the size of the dictionary
        size = dict as u64 - 1 + rt::choose(3) as u64;
    } else if rt::concretize((size > u64::MAX / 2) as u64) == 1 {
        // the reader tells these from the rest
        rt::concretize((size == u64::MAX) as u64);
    }
    rt::assume(top == 0 || size <= top);
    let mut props = ((pb * 5 + lp) * 9 + lc) as u8;
    if how & 4 != 0 {
        props = rt::concretize(rt::u8() as u64) as u8;
    }
    if how & 8 != 0 {
        dict = rt::u32();
        // none that needs more than a megabyte, and those that are too large
        rt::assume(dict <= 1 << 20 || dict > 0xffff_fff0);
        if dict <= 1 << 20 {
            dict = [0, 1, 4095, 4096, 4097, 5000, 65536, 1 << 20][rt::choose(8)];
        }
    }
    let mut mem = u32::MAX;
    if how & 16 != 0 {
        mem = rt::u32();
    }
    let src = |d: Vec<u8>| Src::new(d, smax);
    let pre_opt = Some(&preset[..]).filter(|p| !p.is_empty());
    let (b, size32) = (props as u32, size);
    let r = match how & 3 {
        0 => LZMAReader::new(src(data.clone()), size, b % 9, b / 9 % 5, b / 45, dict, pre_opt),
        1 => LZMAReader::new_with_props(src(data.clone()), size, props, dict, pre_opt),
        _ => {
            let mut d = vec![props];
            d.extend_from_slice(&dict.to_le_bytes());
            d.extend_from_slice(&size32.to_le_bytes());
            d.extend_from_slice(&data);
            LZMAReader::new_mem_limit(src(d), mem, pre_opt)
        }
    };
    rt::reach(1);
    let room = (dict as u64).max(4096) + 15 & !15;
    let need = 10 + room / 1024 + ((0x600u64 << (b % 9 + b / 9 % 5)) / 1024);
    if b > 224 || dict > 0xffff_fff0 || (mem as u64) < need {
        rt::reach(2);
        check!(r.is_err());
        return;
    }
    check!(r.is_ok());
    let mut r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    let mut m = Model::new(b % 9, b / 9 % 5, b / 45);
    let (want, bad) = lzma(&data, &mut m, room as usize, &preset, size);
    let (got, res) = read(&mut r, chunk, usize::MAX);
    if bad {
        rt::reach(3);
        check!(res.is_err() && got.len() <= want.len());
        check!(r.read(&mut [0; 5]).is_err());
    } else {
        rt::reach(4);
        check!(res == Ok(true) && got.len() == want.len());
        check!(matches!(r.read(&mut [0; 5]), Ok(0)));
    }
    let mut same = true;
    for i in 0..got.len().min(want.len()) {
        same &= got[i] == want[i];
    }
    check!(same);
}
