//! Archives nobody should trust: corrupted, cut short, hostile; and the checks on the way to the header.
use crate::util::{self, chain, coder, drain, file, p, RFolder, Src};
use crate::{check, rt};
use sevenz_rust::{Archive, BlockDecoder, Error, Password, SevenZReader};

/// A checksum: the right one, or (where corruption is explored) any.
fn sum(free: bool, data: &[u8]) -> u32 {
    if free {
        rt::u32()
    } else {
        util::crc(data)
    }
}
/// (pack area, header)
pub fn template(t: usize, free: bool) -> (Vec<u8>, Vec<u8>) {
    let copy = || chain(&[coder(&[0], &[])], &[4]);
    let data = vec![1u8, 2, 3, 4];
    match t {
        // every kind of entry, every fact, with and without presence vectors
        0 => {
            let mut f = copy();
            f.crc = Some(sum(free, &data));
            f.subs = vec![(4, f.crc)];
            let mut a = file("ab");
            a.ctime = Some(1);
            a.attr = Some(2);
            let mut b = file("c");
            b.stream = false;
            b.dir = true;
            b.ctime = Some(3);
            b.mtime = Some(4);
            let mut c = file("d");
            c.stream = false;
            c.anti = true;
            c.ctime = Some(5);
            c.atime = Some(6);
            (data, util::header(0, &[(4, Some(9))], &[f], &[a, b, c]))
        }
        // solid blocks and digests
        1 => {
            let mut f = copy();
            f.subs = vec![(1, Some(sum(free, &data[..1]))), (2, None), (1, None)];
            let mut g = chain(&[coder(&[0], &[])], &[2]);
            g.crc = Some(sum(free, &[7, 7]));
            g.subs = vec![(2, None)];
            let mut e = chain(&[coder(&[0], &[])], &[0]);
            e.subs.clear();
            let mut body = data;
            body.extend_from_slice(&[7, 7]);
            (body, util::header(0, &[(4, None), (2, Some(1)), (0, None)], &[f, g, e], &[file("a"), file("b"), file("c"), file("d")]))
        }
        // BCJ2 over four streams, two of them through a copy coder
        2 => {
            let mut b2 = coder(&[3, 3, 1, 0x1B], &[]);
            b2.ins = 4;
            let f = RFolder {
                coders: vec![b2, coder(&[0], &[]), coder(&[0], &[])],
                binds: vec![(0, 1), (1, 2)],
                packed: vec![2, 3, 4, 5],
                sizes: vec![4, 4, 0],
                crc: None,
                subs: vec![(4, None)],
            };
            // jump stream, range coder stream, main stream, call stream
            let body = vec![0, 0, 0, 0, 0, 1, 2, 3, 4];
            (body, util::header(0, &[(0, None), (5, None), (4, None), (0, None)], &[f], &[file("a")]))
        }
        // coders with properties, chained
        3 => {
            let mut f = chain(&[coder(&[3], &[1]), coder(&[3, 3, 5, 1], &[]), coder(&[0], &[])], &[4, 4, 4]);
            f.crc = Some(0);
            f.subs = vec![(4, Some(0))];
            (data, util::header(0, &[(4, None)], &[f], &[file("a")]))
        }
        // a header stored as a packed stream
        4 => {
            let (_, inner) = template(0, free);
            let mut body = data;
            let n = inner.len() as u64;
            let mut f = chain(&[coder(&[0], &[])], &[n]);
            f.crc = Some(sum(free, &inner));
            body.extend_from_slice(&inner);
            (body, encoded(4, &[(n, None)], &f))
        }
        // LZMA2: one uncompressed chunk
        5 => {
            let f = chain(&[coder(&[0x21], &[0])], &[4]);
            (vec![1, 0, 3, 1, 2, 3, 4, 0], util::header(0, &[(8, None)], &[f], &[file("a")]))
        }
        // LZMA: five bytes of range coder and an output of one byte
        6 => {
            let f = chain(&[coder(&[3, 1, 1], &[0x5d, 0, 16, 0, 0])], &[1]);
            (vec![0, 0, 0, 0, 0, 0, 0, 0], util::header(0, &[(8, None)], &[f], &[file("a")]))
        }
        // archive properties, padding, unknown properties
        7 => {
            let mut h = vec![0x01, 0x02, 0x19, 2, 0, 0, 0, 0x04];
            util::streams(0, &[(4, None)], &[copy()], &mut h);
            h.extend_from_slice(&[5, 1, 0x19, 3, 0, 0, 0, 0x11, 5, 0, b'a', 0, 0, 0, 0x16, 2, 1, 0, 0x42, 1, 9, 0, 0]);
            (data, h)
        }
        _ => (vec![], vec![1, 0]),
    }
}
pub fn encoded(pack_pos: u64, pack: &[(u64, Option<u32>)], f: &RFolder) -> Vec<u8> {
    let mut h = vec![0x17, 0x06];
    util::number(pack_pos, &mut h);
    util::number(pack.len() as u64, &mut h);
    h.push(9);
    for q in pack {
        util::number(q.0, &mut h);
    }
    h.extend_from_slice(&[0, 7, 0x0B, 1, 0]);
    util::folder_bytes(f, &mut h);
    h.push(0x0C);
    for s in &f.sizes {
        util::number(*s, &mut h);
    }
    if let Some(c) = f.crc {
        h.extend_from_slice(&[0x0A, 1]);
        h.extend_from_slice(&c.to_le_bytes());
    }
    h.extend_from_slice(&[0, 0]);
    h
}

/// Reads an archive as far as it goes; whatever it holds, this has to come back.
fn use_archive(arc: Vec<u8>) -> bool {
    let len = arc.len() as u64;
    let mut r = match SevenZReader::new(Src::new(arc.clone(), 0), len, Password::empty()) {
        Ok(r) => r,
        Err(_) => return false,
    };
    rt::reach(1);
    // no more entries than the header has room for
    check!(r.archive().files.len() <= 8 * arc.len());
    let mut src = Src::new(arc, 0);
    for i in 0..r.archive().folders.len() {
        let d = BlockDecoder::new(i, r.archive(), &[], &mut src);
        check!(d.entries().len() == d.entry_count());
    }
    let mut n = 0;
    let _ = r.for_each_entries(|_, rd| {
        n += 1;
        drain(rd, 16, 64).map_err(|e| Error::Io(e, "".into()))?;
        Ok(n < 40)
    });
    true
}
/// A valid archive with `k` arbitrary bytes at `off` of its header (checksums recomputed). params: template, off, k, keep the
/// recorded checksums
pub fn h_corrupt() {
    let (t, off, k) = (p(0), p(1), p(2));
    let (body, mut h) = template(t, p(3) == 0);
    rt::assume(off < h.len());
    let end = (off + k).min(h.len());
    rt::fill(&mut h[off..end]);
    use_archive(util::archive(&body, &h));
}
/// The first `off` bytes of a valid header, then `k` arbitrary ones, then nothing. params: template, off, k
pub fn h_arbitrary() {
    let (t, off, k) = (p(0), p(1), p(2));
    let (body, mut h) = template(t, true);
    rt::assume(off <= h.len());
    h.truncate(off);
    h.extend_from_slice(&rt::vec(k));
    use_archive(util::archive(&body, &h));
}
/// The inner header of an encoded header, corrupted. params: template (0), off, k
pub fn h_corrupt_inner() {
    let (t, off, k) = (p(0), p(1), p(2));
    let (mut body, mut h) = template(t, true);
    rt::assume(off < h.len());
    let end = (off + k).min(h.len());
    rt::fill(&mut h[off..end]);
    let n = h.len() as u64;
    let mut f = chain(&[coder(&[0], &[])], &[n]);
    f.crc = Some(rt::u32());
    let pos = body.len() as u64;
    body.extend_from_slice(&h);
    use_archive(util::archive(&body, &encoded(pos, &[(n, None)], &f)));
}
/// A valid archive cut short after any number of bytes. params: template
pub fn h_cut() {
    let (body, h) = template(p(0), true);
    let mut a = util::archive(&body, &h);
    let n = a.len();
    let cut = rt::u16() as usize;
    rt::assume(cut < n);
    let cut = rt::concretize(cut as u64) as usize;
    a.truncate(cut);
    check!(!use_archive(a));
    rt::reach(2);
}
/// Arbitrary bytes where the signature header is expected, recomputed checksums optional. params: bytes behind the 32,
/// recompute the start header checksum, fix the signature
pub fn h_start_any() {
    let (n, sum, sig) = (p(0), p(1), p(2));
    let mut a = rt::vec(32 + n);
    if sig != 0 {
        a[..8].copy_from_slice(&[b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C, 0, 4]);
    }
    if sum != 0 {
        let c = util::crc(&a[12..32]);
        a[8..12].copy_from_slice(&c.to_le_bytes());
    }
    let off = u64::from_le_bytes(a[12..20].try_into().unwrap());
    let size = u64::from_le_bytes(a[20..28].try_into().unwrap());
    let crc = u32::from_le_bytes(a[28..32].try_into().unwrap());
    let scrc = u32::from_le_bytes(a[8..12].try_into().unwrap());
    let zero = scrc == 0 && a[12..32].iter().all(|b| *b == 0);
    let magic = a[..6] == [b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C] && a[6] == 0;
    let len = a.len() as u64;
    let whole = a.clone();
    if let Ok(ar) = Archive::read(&mut Src::new(a, 0), len, &[]) {
        rt::reach(1);
        check!(magic);
        if !zero {
            check!(scrc == util::crc(&whole[12..32]));
            if size == 0 {
                check!(ar.files.is_empty() && ar.folders.is_empty());
            } else {
                check!(off <= n as u64 && size <= n as u64 - off);
                let (o, s) = (rt::concretize(off) as usize, rt::concretize(size) as usize);
                check!(crc == util::crc(&whole[32 + o..32 + o + s]));
            }
        }
    }
    rt::reach(2);
}
/// Every check between the start of the file and the header. params: which field is arbitrary (0 signature, 1 version,
/// 2 start header checksum, 3 header checksum, 4 one stored header byte, 5 one start header byte)
pub fn h_checked() {
    let (t, which) = (p(0), p(1));
    let (body, h) = template(t, false);
    let mut a = util::archive(&body, &h);
    let at = match which {
        0 => 0..6,
        1 => 6..8,
        2 => 8..12,
        3 => 28..32,
        4 => {
            let i = rt::u16() as usize;
            rt::assume(i < h.len());
            let i = 32 + body.len() + rt::concretize(i as u64) as usize;
            i..i + 1
        }
        _ => {
            let i = 12 + rt::choose(20);
            i..i + 1
        }
    };
    let old = a[at.clone()].to_vec();
    rt::fill(&mut a[at.clone()]);
    if which == 3 {
        let c = util::crc(&a[12..32]);
        a[8..12].copy_from_slice(&c.to_le_bytes());
    }
    let new = a[at].to_vec();
    let same = if which == 1 { new[0] == old[0] } else { new == old };
    let len = a.len() as u64;
    let head = a[32 + body.len()..].to_vec();
    let (start, scrc) = (a[12..32].to_vec(), a[8..12].to_vec());
    let r = Archive::read(&mut Src::new(a, 0), len, &[]);
    if same {
        rt::reach(1);
        check!(r.is_ok());
    } else {
        rt::reach(2);
        match which {
            0 => check!(matches!(r, Err(Error::BadSignature(s)) if s[..] == new[..])),
            1 => check!(matches!(r, Err(Error::UnsupportedVersion { major, minor }) if major == new[0] && minor == new[1])),
            2 => check!(r.is_err()),
            3 => check!(matches!(r, Err(Error::NextHeaderCrcMismatch))),
            // the stand-in checksum may collide like any other
            4 => check!(util::crc(&head) == util::crc(&h) || r.is_err()),
            _ => check!(scrc == util::crc(&start).to_le_bytes() || r.is_err()),
        }
    }
}
/// An archive whose start header was never written (all zero) is recovered from its end header. params: template,
/// symbolic bytes in front of the data
pub fn h_recover() {
    let (t, k) = (p(0), p(1));
    let (body, h) = template(t, false);
    let good = util::extract(util::archive(&body, &h), 0, 0, 100, &[]);
    let mut a = util::archive(&body, &h);
    for b in &mut a[8..32] {
        *b = 0;
    }
    // data in front of the header is arbitrary
    let k = k.min(body.len());
    rt::fill(&mut a[32..32 + k]);
    let len = a.len() as u64;
    match (Archive::read(&mut Src::new(a.clone(), 0), len, &[]), good) {
        (Ok(r), Ok(g)) => {
            rt::reach(1);
            check!(r.files.len() >= g.len());
            for (n, _) in &g {
                check!(r.files.iter().any(|f| f.name() == n));
            }
            if k == 0 {
                match util::extract(a, 0, 0, 100, &[]) {
                    Ok(x) => check!(x == g),
                    Err(_) => check!(false),
                }
            }
        }
        _ => check!(false),
    }
}
/// Bytes inside the end header that look like the start of one do not keep it from being found. params: first
/// symbolic byte of the eight of a time, how many
pub fn h_recover_lookalike() {
    let (at, n) = (p(0), p(1));
    let data = vec![1u8, 2, 3, 4];
    let mut f = chain(&[coder(&[0], &[])], &[4]);
    f.crc = Some(util::crc(&data));
    f.subs = vec![(4, f.crc)];
    let mut e = file("ab");
    let mut t = [0u8; 8];
    rt::fill(&mut t[at..at + n]);
    e.mtime = Some(u64::from_le_bytes(t));
    let time = u64::from_le_bytes(t);
    e.attr = Some(0x20);
    let mut a = util::archive(&data, &util::header(0, &[(4, None)], &[f], &[e]));
    for b in &mut a[8..32] {
        *b = 0;
    }
    let len = a.len() as u64;
    match SevenZReader::new(Src::new(a, 0), len, Password::empty()) {
        Ok(mut r) => {
            rt::reach(1);
            check!(r.archive().files.len() == 1);
            check!(r.archive().files[0].last_modified_date.to_raw() == time);
            let res = r.for_each_entries(|e, rd| {
                check!(e.name() == "ab");
                let got = drain(rd, 16, 64).map_err(|e| Error::Io(e, "".into()))?;
                check!(got == data);
                Ok(true)
            });
            check!(res.is_ok());
        }
        Err(_) => check!(false),
    }
}
/// Recovery of anything: no panic, an end. params: bytes after the zeroed start header
pub fn h_recover_any() {
    let n = p(0);
    let mut a = vec![b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C, 0, 4];
    a.resize(32, 0);
    a.extend_from_slice(&rt::vec(n));
    let len = a.len() as u64;
    let r = Archive::read(&mut Src::new(a, 0), len, &[]);
    rt::reach(1);
    // so few bytes hold no entries
    check!(r.is_err() || n > 9);
}
/// A header stored as a packed stream is the header it decodes to, and is checked. params: coders (1 delta, 2 ARM, 3 copy;
/// from the output, 4 bits each), count, checksum symbolic, bytes missing, pack position, delivery size
pub fn h_encoded() {
    let (code, n, sum, missing, pos, src) = (p(0), p(1), p(2), p(3), p(4), p(5));
    let (data, _) = template(0, false);
    let mut f = chain(&[coder(&[0], &[])], &[4]);
    let c = rt::u32();
    f.crc = Some(c);
    f.subs = vec![(4, f.crc)];
    let mut e = file("ab");
    e.mtime = Some(rt::u64());
    e.attr = Some(rt::u32());
    let want = (e.mtime, e.attr);
    let inner = util::header(0, &[(4, None)], &[f], &[e]);
    let mut stored = inner.clone();
    let mut cs = vec![];
    // encode from the output inwards
    for i in 0..n {
        match code >> (4 * i) & 15 {
            1 => {
                cs.push(coder(&[3], &[2]));
                for i in (3..stored.len()).rev() {
                    stored[i] = stored[i].wrapping_sub(stored[i - 3]);
                }
            }
            2 => cs.push(coder(&[3, 3, 5, 1], &[])), // no 0xEB at the converted places, see below
            _ => cs.push(coder(&[0], &[])),
        }
    }
    if cs.iter().any(|c| c.id.len() == 4) {
        for i in (3..stored.len()).step_by(4) {
            rt::assume(stored[i] != 0xEB);
        }
    }
    let m = inner.len() as u64;
    let mut ef = chain(&cs, &vec![m; n]);
    let sym = rt::u32();
    ef.crc = if sum != 0 { Some(sym) } else { None };
    let mut body = data;
    body.resize(pos.max(4), 0x77);
    let at = body.len() as u64;
    let have = stored.len() - missing;
    body.extend_from_slice(&stored[..have]);
    let h = encoded(at, &[(have as u64, None)], &ef);
    let a = util::archive(&body, &h);
    let len = a.len() as u64;
    let r = Archive::read(&mut Src::new(a, src), len, &[]);
    if missing == 0 && ef.crc.map_or(true, |c| c == util::crc(&inner)) {
        rt::reach(1);
        match r {
            Ok(r) => {
                check!(r.files.len() == 1 && r.files[0].name() == "ab" && r.folders.len() == 1);
                check!(Some(r.files[0].last_modified_date.to_raw()) == want.0 && Some(r.files[0].windows_attributes) == want.1);
                check!(r.files[0].crc == c as u64 && r.files[0].size == 4);
            }
            Err(_) => check!(false),
        }
    } else {
        rt::reach(2);
        check!(r.is_err());
    }
}
/// An archive without entries, in both forms, is opened as such.
pub fn h_nothing() {
    let form = rt::choose(3);
    let a = match form {
        0 => util::archive(&[], &[]),
        1 => util::archive(&[], &[1, 0]),
        _ => util::archive(&[], &util::header_of(&[])),
    };
    match util::extract(a, 0, 0, 100, &[]) {
        Ok(v) => check!(v.is_empty()),
        Err(_) => check!(false),
    }
    rt::reach(1);
}
