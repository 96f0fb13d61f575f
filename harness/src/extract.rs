//! Extraction: which entries a reader visits with which content, how checksums are enforced, how coders are chained.
use crate::util::{self, chain, coder, drain, file, p, RCoder, RFile, RFolder, Src};
use crate::{check, rt};
use sevenz_rust::{Archive, BlockDecoder, Error, Password, SevenZReader};

fn name(i: usize) -> String {
    let mut s = String::from("n");
    s.push((b'a' + i as u8) as char);
    s
}
fn mark(n: u32) -> Error {
    Error::MaxMemLimited { max_kb: 4711, actaul_kb: n as usize }
}
fn is_mark(e: &Error, n: u32) -> bool {
    match e {
        Error::MaxMemLimited { max_kb: 4711, actaul_kb } => *actaul_kb == n as usize,
        Error::MaybeBadPassword(_) => false,
        _ => false,
    }
}

struct Plan {
    arc: Vec<u8>,
    /// content, folder
    entries: Vec<(Vec<u8>, Option<usize>)>,
    folders: usize,
}
/// 0 no stream, 1 two bytes in the current folder, 2 one byte in a new folder, 3 an empty stream in the current folder,
/// 4 a folder without entries, then one byte in a new folder
fn plan(kinds: &[usize], digests: usize, pack_pos: usize) -> Plan {
    let mut folders: Vec<RFolder> = vec![];
    let mut data: Vec<Vec<u8>> = vec![];
    let mut fs: Vec<RFile> = vec![];
    let mut entries = vec![];
    for (i, &k) in kinds.iter().enumerate() {
        let mut f = file(&name(i));
        if k == 0 {
            f.stream = false;
            f.dir = i & 1 == 0;
            entries.push((vec![], None));
            fs.push(f);
            continue;
        }
        if k == 4 {
            let mut d = chain(&[coder(&[0], &[])], &[0]);
            d.subs.clear();
            folders.push(d);
            data.push(vec![]);
        }
        if k == 2 || k == 4 || folders.is_empty() {
            let mut d = chain(&[coder(&[0], &[])], &[0]);
            d.subs.clear();
            folders.push(d);
            data.push(vec![]);
        }
        let c = match k {
            1 => rt::vec(2),
            3 => vec![],
            _ => rt::vec(1),
        };
        let l = folders.len() - 1;
        let sum = if digests & 1 != 0 { Some(util::crc(&c)) } else { None };
        folders[l].subs.push((c.len() as u64, sum));
        data[l].extend_from_slice(&c);
        entries.push((c, Some(l)));
        fs.push(f);
    }
    let mut pack = vec![];
    let mut body = vec![0x5a; pack_pos];
    for (f, d) in folders.iter_mut().zip(&data) {
        f.sizes = vec![d.len() as u64];
        if digests & 2 != 0 {
            f.crc = Some(util::crc(d));
        }
        if f.subs.len() == 1 && f.crc.is_some() {
            f.subs[0].1 = f.crc;
        }
        pack.push((d.len() as u64, None));
        body.extend_from_slice(d);
    }
    let h = util::header(pack_pos as u64, &pack, &folders, &fs);
    Plan { arc: util::archive(&body, &h), entries, folders: folders.len() }
}

/// Every entry is visited once, with its own content. params: entries, digests (1 entries, 2 folders), pack position,
/// read size, delivery size, mode (0 all, 1 stop after k, 2 fail at k, 3 block by block in either order), kinds allowed
pub fn h_visit() {
    let (n, dig, pos, chunk, src, mode, kinds) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6));
    let ks: Vec<usize> = (0..n).map(|_| rt::choose(kinds as u64)).collect();
    let pl = plan(&ks, dig, pos);
    let mut seen = vec![0u32; n];
    let len = pl.arc.len() as u64;
    let source = Src::new(pl.arc.clone(), src);
    let stop = if mode == 1 || mode == 2 { rt::choose(n as u64) } else { n };
    let mut visits = 0;
    if mode == 3 {
        let mut source = source;
        let a = match Archive::read(&mut source, len, &[]) {
            Ok(a) => a,
            Err(_) => return check!(false),
        };
        check!(a.folders.len() == pl.folders);
        let rev = rt::choose(2);
        for b in 0..pl.folders {
            let b = if rev == 1 { pl.folders - 1 - b } else { b };
            let d = BlockDecoder::new(b, &a, &[], &mut source);
            let want: Vec<usize> = (0..n).filter(|&i| pl.entries[i].1 == Some(b)).collect();
            // entries without a stream that lie between the first and the last entry of the block may be listed with it
            let listed: Vec<String> = d.entries().iter().filter(|e| e.has_stream()).map(|e| e.name().to_string()).collect();
            check!(d.entry_count() == d.entries().len());
            check!(listed.len() == want.len());
            for (l, w) in listed.iter().zip(&want) {
                check!(*l == name(*w));
            }
            let mut at = 0;
            let r = d.for_each_entries(&mut |e, rd| {
                let got = drain(rd, chunk, 100).map_err(|e| Error::Io(e, "".into()))?;
                if e.has_stream() {
                    check!(at < want.len());
                    check!(e.name() == name(want[at]) && got == pl.entries[want[at]].0);
                    at += 1;
                } else {
                    check!(got.is_empty());
                }
                Ok(true)
            });
            check!(matches!(r, Ok(true)) && at == want.len());
        }
        return rt::reach(1);
    }
    let mut r = match SevenZReader::new(source, len, Password::empty()) {
        Ok(r) => r,
        Err(_) => return check!(false),
    };
    let res = r.for_each_entries(|e, rd| {
        let mut at = n;
        for i in 0..n {
            if e.name() == name(i) {
                at = i;
            }
        }
        check!(at < n);
        seen[at] += 1;
        visits += 1;
        let got = drain(rd, chunk, 100).map_err(|e| Error::Io(e, "".into()))?;
        check!(got == pl.entries[at].0);
        check!(e.has_stream() == pl.entries[at].1.is_some());
        if visits - 1 == stop {
            if mode == 2 {
                return Err(mark(9));
            }
            return Ok(false);
        }
        Ok(true)
    });
    rt::reach(1);
    match res {
        Ok(()) => check!(mode != 2),
        Err(e) => check!(mode == 2 && is_mark(&e, 9)),
    }
    check!(visits == if mode == 0 { n } else { stop + 1 });
    for s in &seen {
        check!(if mode == 0 { *s == 1 } else { *s <= 1 });
    }
    // afterwards the reader still delivers everything
    if mode != 0 {
        let mut again = 0;
        let res = r.for_each_entries(|_, rd| {
            again += drain(rd, 0, 100).map_err(|e| Error::Io(e, "".into()))?.len();
            Ok(true)
        });
        check!(res.is_ok() && again == pl.entries.iter().map(|e| e.0.len()).sum::<usize>());
    }
}

/// Content is delivered as valid exactly if it matches what the header records. params: entries of one byte-block of
/// `size` bytes each, size, digests symbolic (1 entries, 2 folder), missing bytes at the end of the packed stream,
/// read size, delivery size, read calls with empty buffers in between
pub fn h_integrity() {
    let (n, size, dig, missing, chunk, src, nul) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6));
    let data = rt::vec(n * size);
    let mut f = chain(&[coder(&[0], &[])], &[(n * size) as u64]);
    f.subs.clear();
    let mut sums = vec![];
    for i in 0..n {
        let c = if dig & 1 != 0 { Some(rt::u32()) } else { None };
        sums.push(c);
        f.subs.push((size as u64, c));
    }
    if dig & 2 != 0 {
        f.crc = Some(rt::u32());
    }
    let single = n == 1 && f.crc.is_some();
    let fcrc = f.crc;
    let have = n * size - missing;
    let h = util::header(0, &[(have as u64, None)], &[f], &(0..n).map(|i| file(&name(i))).collect::<Vec<_>>());
    let arc = util::archive(&data[..have], &h);
    let len = arc.len() as u64;
    let mut r = match SevenZReader::new(Src::new(arc, src), len, Password::empty()) {
        Ok(r) => r,
        Err(_) => return check!(false),
    };
    let mut k = 0;
    let res = r.for_each_entries(|e, rd| {
        let mut out = vec![];
        let mut buf = vec![0u8; chunk];
        loop {
            if nul != 0 {
                match rd.read(&mut []) {
                    Ok(0) => {}
                    _ => check!(false),
                }
            }
            match rd.read(&mut buf) {
                Ok(0) => break,
                Ok(m) => out.extend_from_slice(&buf[..m]),
                Err(x) => return Err(Error::Io(x, "".into())),
            }
        }
        // an entry that ends without an error is complete and has its recorded checksum
        check!(out == data[k * size..(k + 1) * size]);
        check!(e.size() == size as u64);
        let own = if single { fcrc } else { sums[k] };
        check!(own.map_or(true, |c| c == util::crc(&data[k * size..(k + 1) * size])));
        k += 1;
        Ok(true)
    });
    let mut good = missing == 0;
    if !single {
        for i in 0..n {
            good &= sums[i].map_or(true, |c| c == util::crc(&data[i * size..(i + 1) * size]));
        }
    }
    good &= fcrc.map_or(true, |c| c == util::crc(&data));
    if good {
        rt::reach(1);
        check!(res.is_ok() && k == n);
    } else {
        rt::reach(2);
        check!(res.is_err());
    }
}

// reference decoders on whole buffers
fn undelta(d: &mut [u8], dist: usize) {
    for i in dist..d.len() {
        d[i] = d[i].wrapping_add(d[i - dist]);
    }
}
fn unarm(d: &mut [u8]) {
    let mut i = 0;
    while i + 4 <= d.len() {
        if d[i + 3] == 0xEB {
            let v = d[i] as u32 | (d[i + 1] as u32) << 8 | (d[i + 2] as u32) << 16;
            let v = (v << 2).wrapping_sub(i as u32 + 8) >> 2;
            d[i] = v as u8;
            d[i + 1] = (v >> 8) as u8;
            d[i + 2] = (v >> 16) as u8;
        }
        i += 4;
    }
}
fn unppc(d: &mut [u8]) {
    let mut i = 0;
    while i + 4 <= d.len() {
        let v = u32::from_be_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]]);
        if v & 0xFC000003 == 0x48000001 {
            let w = (v & 0x03FFFFFC).wrapping_sub(i as u32) & 0x03FFFFFC | 0x48000001;
            d[i..i + 4].copy_from_slice(&w.to_be_bytes());
        }
        i += 4;
    }
}
/// Coders are applied from the packed stream outwards, whatever order the folder lists them in. params: coder kinds from
/// the output to the packed stream (4 bits each: 1 delta 1, 2 delta 3, 3 ARM, 4 copy, 5 PowerPC), count, listing order
/// (permutation index), bytes, read size, delivery size, symbolic bytes from offset 4 on
pub fn h_chain() {
    let (code, n, perm, size, chunk, src, sym) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6));
    let kinds: Vec<usize> = (0..n).map(|i| code >> (4 * i) & 15).collect();
    let mk = |k: usize| -> RCoder {
        match k {
            1 => coder(&[3], &[0]),
            2 => coder(&[3], &[2]),
            3 => coder(&[3, 3, 5, 1], &[]),
            5 => coder(&[3, 3, 2, 5], &[]),
            _ => coder(&[0], &[]),
        }
    };
    // place[i]: where coder i (0 = closest to the output) is listed
    let mut idx: Vec<usize> = (0..n).collect();
    let mut place = vec![];
    let mut q = perm;
    for i in 0..n {
        place.push(idx.remove(q % (n - i)));
        q /= n - i;
    }
    let mut listed = vec![RCoder::default(); n];
    for i in 0..n {
        listed[place[i]] = mk(kinds[i]);
    }
    let mut data: Vec<u8> = (0..size).map(|i| (i * 37 + 11) as u8).collect();
    rt::fill(&mut data[4..4 + sym]);
    let mut want = data.clone();
    for &k in kinds.iter().rev() {
        match k {
            1 => undelta(&mut want, 1),
            2 => undelta(&mut want, 3),
            3 => unarm(&mut want),
            5 => unppc(&mut want),
            _ => {}
        }
    }
    let f = RFolder {
        coders: listed,
        binds: (1..n).map(|i| (place[i - 1] as u64, place[i] as u64)).collect(),
        packed: vec![place[n - 1] as u64],
        sizes: vec![size as u64; n],
        crc: Some(util::crc(&want)),
        subs: vec![(size as u64, Some(util::crc(&want)))],
    };
    let h = util::header(0, &[(size as u64, None)], &[f], &[file("a")]);
    match util::extract(util::archive(&data, &h), src, chunk, 1000, &[]) {
        Ok(v) => {
            rt::reach(1);
            check!(v.len() == 1 && v[0].1 == want);
        }
        Err(_) => check!(false),
    }
}
