//! The LZMA and LZMA2 encoders: what they write decodes, by the format and by the crate's readers, to what was put in.
use crate::lzma::{lzma, lzma2, noise};
use crate::lzma_ref::Model;
use crate::util::{p, Src};
use crate::{check, rt};
use lzma_rust::*;
use std::io::{Read, Write};

pub enum Step {
    Data(Vec<u8>),
    Flush,
}
/// A sequence of writes and flushes whose data is partly symbolic, one piece per hexadecimal digit of `plan`.
pub fn steps(mut plan: u64) -> (Vec<Step>, Vec<u8>) {
    let mut all: Vec<u8> = vec![];
    let mut steps = vec![];
    let mut from = 0;
    let mut k = 0u32;
    let copy = |all: &mut Vec<u8>, dist: usize, len: usize| {
        let dist = dist.min(all.len());
        for _ in 0..len {
            let b = if dist == 0 { 7 } else { all[all.len() - dist] };
            all.push(b);
        }
    };
    while plan != 0 {
        let d = plan >> 60;
        plan <<= 4;
        k += 1;
        let mut cut = false;
        let mut flush = false;
        match d {
            // one byte of two, one of all, four of two
            1 => all.push(0x41 + rt::choose(2) as u8),
            2 => all.push(rt::u8()),
            3 => {
                for _ in 0..4 {
                    all.push(0x61 + 2 * rt::choose(2) as u8);
                }
            }
            4 => {
                let n = noise(40);
                all.extend_from_slice(&n);
            }
            5 => all.extend((0..3000u32).map(|i| (i.wrapping_mul(0x9E3779B1) >> 11 ^ i << (k & 3)) as u8)),
            6 => copy(&mut all, 1, 300),
            // a match at one of many distances, of many lengths
            7 => {
                let dist = [1, 2, 3, 4, 5, 8, 13, 40, 100, 130, 600, 3000][rt::choose(12)];
                copy(&mut all, dist, 12);
            }
            8 => {
                let len = [1, 2, 3, 4, 5, 9, 10, 17, 18, 19, 40, 272, 273, 274, 280, 300][rt::choose(16)];
                copy(&mut all, 37, len);
            }
            9 => copy(&mut all, 10, 10),
            10 => all.extend((0..70000u32).map(|i| (i.wrapping_mul(0x9E3779B1) >> 9 ^ i >> 5) as u8)),
            11 => all.push(k as u8),
            12 => all.resize(all.len() + (2 << 20) + 100, 9),
            13 => flush = true,
            14 => cut = true,
            // a flush, a cut or nothing
            _ => match rt::choose(3) {
                0 => flush = true,
                1 => cut = true,
                _ => (),
            },
        }
        if (cut || flush) && all.len() > from {
            steps.push(Step::Data(all[from..].to_vec()));
            from = all.len();
        }
        if flush {
            steps.push(Step::Flush);
        }
    }
    if all.len() > from {
        steps.push(Step::Data(all[from..].to_vec()));
    }
    (steps, all)
}
pub fn feed<W: Write>(w: &mut W, steps: &[Step]) -> bool {
    let mut ok = true;
    for s in steps {
        match s {
            Step::Data(d) => ok &= w.write_all(d).is_ok(),
            Step::Flush => ok &= w.flush().is_ok(),
        }
    }
    ok
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut same = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        same &= a[i] == b[i];
    }
    same
}
/// params: plan, codec (0 LZMA2, 1 LZMA with end marker, 2 without, 3 with header and size, 4 with header)
/// | preset of the mode << 4 | of the match finder << 8, lc | lp << 4 | pb << 8 | dictionary << 12,
/// nice length | depth << 12, preset dictionary bytes, bytes of the plan already before the dictionary
pub fn h_lzma_enc() {
    let (codec, lclppb, nice, pre) = (p(1), p(2), p(3), p(4));
    let mut o = LZMA2Options::with_preset((codec >> 8 & 15) as u32);
    o.mode = LZMA2Options::with_preset((codec >> 4 & 15) as u32).mode;
    o.lc = lclppb as u32 & 15;
    o.lp = lclppb as u32 >> 4 & 15;
    o.pb = lclppb as u32 >> 8 & 15;
    o.dict_size = (lclppb >> 12) as u32;
    o.nice_len = nice as u32 & 0xfff;
    o.depth_limit = (nice >> 12) as i32;
    let preset = noise(pre);
    if pre > 0 {
        o.preset_dict = Some(preset.clone());
    }
    let codec = codec & 15;
    let (lc, lp, pb, dict) = (o.lc, o.lp, o.pb, o.dict_size);
    let (steps, all) = steps(rt::param(0));
    let mut out = vec![];
    let mut ok = true;
    match codec {
        0 => {
            let mut w = LZMA2Writer::new(CountingWriter::new(&mut out), &o);
            ok &= feed(&mut w, &steps);
            ok &= w.finish().is_ok();
        }
        _ => {
            let size = Some(all.len() as u64).filter(|_| codec == 3);
            let w = CountingWriter::new(&mut out);
            let w = match codec {
                1 | 2 => LZMAWriter::new_no_header(w, &o, codec == 1),
                _ => LZMAWriter::new_use_header(w, &o, size),
            };
            check!(w.is_ok());
            if let Ok(mut w) = w {
                ok &= feed(&mut w, &steps);
                ok &= w.finish().is_ok();
            }
        }
    }
    check!(ok);
    rt::reach(1);
    let size = if codec == 2 || codec == 3 { all.len() as u64 } else { u64::MAX };
    let mut body = &out[..];
    if codec > 2 {
        check!(out.len() > 13 && out[0] as u32 == (pb * 5 + lp) * 9 + lc && out[1..5] == dict.to_le_bytes() && out[5..13] == size.to_le_bytes());
        body = &out[13..];
    }
    let preset_opt = Some(&preset[..]).filter(|p| !p.is_empty());
    // by the format
    let (got, res) = if codec == 0 { lzma2(body, dict as usize, &preset, 63) } else { lzma(body, &mut Model::new(lc, lp, pb), dict as usize, &preset, size) };
    check!(same(&got, &all) && !res);
    // by the crate
    let src = Src::new(out, 4096);
    let mut got = vec![];
    let res = match codec {
        0 => LZMA2Reader::new(src, dict, preset_opt).read_to_end(&mut got).is_ok(),
        1 | 2 => match LZMAReader::new(src, size, lc, lp, pb, dict, preset_opt) {
            Ok(mut r) => r.read_to_end(&mut got).is_ok(),
            Err(_) => false,
        },
        _ => match LZMAReader::new_mem_limit(src, u32::MAX, preset_opt) {
            Ok(mut r) => r.read_to_end(&mut got).is_ok(),
            Err(_) => false,
        },
    };
    check!(res && same(&got, &all));
    rt::reach(2);
}
