//! Branch converters and delta: the decoded bytes are what the 7z format defines, for every content and every
//! way of cutting the reads.
use crate::util::{self, p};
use crate::{check, rt};

fn msb(b: u8) -> bool {
    b == 0 || b == 0xff
}
/// x86 converter, one pass over the whole buffer.
pub fn x86(d: &mut [u8], encoding: bool) {
    const ALLOWED: [bool; 8] = [true, true, true, false, true, false, false, false];
    const BITNUM: [u32; 8] = [0, 1, 2, 2, 3, 3, 3, 3];
    if d.len() < 5 {
        return;
    }
    let mut mask = 0u32;
    let mut last: i64 = -1; // position of the last opcode seen
    let mut i = 0usize;
    while i + 4 < d.len() {
        if d[i] & 0xFE != 0xE8 {
            i += 1;
            continue;
        }
        let gap = i as i64 - last;
        if gap > 3 {
            mask = 0;
        } else {
            mask = (mask << (gap - 1)) & 7;
            if mask != 0 {
                let b = d[i + 4 - BITNUM[mask as usize] as usize];
                if !ALLOWED[mask as usize] || msb(b) {
                    last = i as i64;
                    mask = ((mask << 1) & 7) | 1;
                    i += 1;
                    continue;
                }
            }
        }
        last = i as i64;
        if msb(d[i + 4]) {
            let mut src = u32::from_le_bytes([d[i + 1], d[i + 2], d[i + 3], d[i + 4]]);
            let at = i as u32 + 5;
            let dest = loop {
                let v = if encoding { src.wrapping_add(at) } else { src.wrapping_sub(at) };
                if mask == 0 {
                    break v;
                }
                let idx = BITNUM[mask as usize] * 8;
                if !msb((v >> (24 - idx)) as u8) {
                    break v;
                }
                src = v ^ ((1u32 << (32 - idx)) - 1);
            };
            let b = dest.to_le_bytes();
            d[i + 1] = b[0];
            d[i + 2] = b[1];
            d[i + 3] = b[2];
            d[i + 4] = if dest & 0x0100_0000 != 0 { 0xff } else { 0 };
            i += 5;
            mask = 0;
            // the next opcode is at least 5 positions on, so the mask restarts
        } else {
            mask = ((mask << 1) & 7) | 1;
            i += 1;
        }
    }
}
pub fn arm(d: &mut [u8], encoding: bool) {
    let mut i = 0;
    while i + 4 <= d.len() {
        if d[i + 3] == 0xEB {
            let src = (d[i] as u32 | (d[i + 1] as u32) << 8 | (d[i + 2] as u32) << 16) << 2;
            let at = i as u32 + 8;
            let v = if encoding { src.wrapping_add(at) } else { src.wrapping_sub(at) } >> 2;
            d[i] = v as u8;
            d[i + 1] = (v >> 8) as u8;
            d[i + 2] = (v >> 16) as u8;
        }
        i += 4;
    }
}
pub fn armt(d: &mut [u8], encoding: bool) {
    let mut i = 0;
    while i + 4 <= d.len() {
        if d[i + 1] & 0xF8 == 0xF0 && d[i + 3] & 0xF8 == 0xF8 {
            let src = ((d[i + 1] as u32 & 7) << 19 | (d[i] as u32) << 11 | (d[i + 3] as u32 & 7) << 8 | d[i + 2] as u32) << 1;
            let at = i as u32 + 4;
            let v = if encoding { src.wrapping_add(at) } else { src.wrapping_sub(at) } >> 1;
            d[i + 1] = 0xF0 | (v >> 19) as u8 & 7;
            d[i] = (v >> 11) as u8;
            d[i + 3] = 0xF8 | (v >> 8) as u8 & 7;
            d[i + 2] = v as u8;
            i += 2;
        }
        i += 2;
    }
}
pub fn ppc(d: &mut [u8], encoding: bool) {
    let mut i = 0;
    while i + 4 <= d.len() {
        if d[i] >> 2 == 0x12 && d[i + 3] & 3 == 1 {
            let src = (d[i] as u32 & 3) << 24 | (d[i + 1] as u32) << 16 | (d[i + 2] as u32) << 8 | (d[i + 3] as u32 & !3);
            let v = if encoding { src.wrapping_add(i as u32) } else { src.wrapping_sub(i as u32) };
            d[i] = 0x48 | (v >> 24) as u8 & 3;
            d[i + 1] = (v >> 16) as u8;
            d[i + 2] = (v >> 8) as u8;
            d[i + 3] = d[i + 3] & 3 | v as u8 & !3;
        }
        i += 4;
    }
}
pub fn sparc(d: &mut [u8], encoding: bool) {
    let mut i = 0;
    while i + 4 <= d.len() {
        if d[i] == 0x40 && d[i + 1] & 0xC0 == 0 || d[i] == 0x7F && d[i + 1] & 0xC0 == 0xC0 {
            let src = u32::from_be_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]]) << 2;
            let v = if encoding { src.wrapping_add(i as u32) } else { src.wrapping_sub(i as u32) } >> 2;
            let sign = 0u32.wrapping_sub((v >> 22) & 1);
            let v = (sign << 22) & 0x3FFF_FFFF | v & 0x3F_FFFF | 0x4000_0000;
            d[i..i + 4].copy_from_slice(&v.to_be_bytes());
        }
        i += 4;
    }
}
pub const IDS: [&[u8]; 5] = [&[3, 3, 1, 3], &[3, 3, 5, 1], &[3, 3, 7, 1], &[3, 3, 2, 5], &[3, 3, 8, 5]];
pub fn convert(which: usize, d: &mut [u8], encoding: bool) {
    match which {
        0 => x86(d, encoding),
        1 => arm(d, encoding),
        2 => armt(d, encoding),
        3 => ppc(d, encoding),
        _ => sparc(d, encoding),
    }
}

fn same(got: Result<Vec<(String, Vec<u8>)>, sevenz_rust::Error>, want: &[u8]) {
    match got {
        Ok(v) => {
            rt::reach(1);
            check!(v.len() == 1);
            check!(v[0].1.len() == want.len());
            let mut ok = true;
            for i in 0..want.len() {
                ok &= v[0].1[i] == want[i];
            }
            check!(ok);
        }
        Err(_) => check!(false),
    }
}

/// params: converter, symbolic bytes, concrete bytes before them, read size, source read size
pub fn h_bcj() {
    let (which, n, pre, chunk, smax) = (p(0), p(1), p(2), p(3), p(4));
    let mut d = vec![0x55u8; pre];
    d.extend_from_slice(&rt::vec(n));
    let mut want = d.clone();
    convert(which, &mut want, false);
    let a = util::single(IDS[which], &[], &d, d.len() as u64);
    same(util::extract(a, smax, chunk, 1 << 20, &[]), &want);
}

/// The reference converters invert each other (checks the yardstick itself). params: converter, bytes
pub fn h_bcj_ref() {
    let (which, n) = (p(0), p(1));
    let d = rt::vec(n);
    let mut e = d.clone();
    convert(which, &mut e, true);
    convert(which, &mut e, false);
    rt::reach(1);
    check!(e == d);
}

/// Delta filter. params: bytes, distance (1..=256) or 0 for no properties, read size, source read size
pub fn h_delta() {
    let (n, dist, chunk, smax) = (p(0), p(1), p(2), p(3));
    let plain = rt::vec(n);
    let props: Vec<u8> = if dist == 0 { vec![] } else { vec![(dist - 1) as u8] };
    let dd = dist.max(1);
    let mut enc = plain.clone();
    for i in (dd..n).rev() {
        enc[i] = plain[i].wrapping_sub(plain[i - dd]);
    }
    let a = util::single(&[3], &props, &enc, n as u64);
    same(util::extract(a, smax, chunk, 1 << 20, &[]), &plain);
}
