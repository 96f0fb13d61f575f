//! What the writer puts into a header, read back by the reader (through the guarded hooks).
use crate::header::*;
use crate::util::{self, p, Src};
use crate::{check, rt};
use sevenz_rust::{SevenZArchiveEntry, SevenZMethod, SevenZMethodConfiguration, SevenZWriter};

fn writer() -> SevenZWriter<Src> {
    match SevenZWriter::new(Src::new(vec![], 0)) {
        Ok(w) => w,
        Err(_) => {
            check!(false);
            unreachable!()
        }
    }
}
fn lzma() -> Vec<SevenZMethodConfiguration> {
    vec![SevenZMethodConfiguration::new(SevenZMethod::LZMA)]
}

/// Every u64 the writer records is written as a canonical NUMBER and read back. params: 0 packed size, 1 unpacked size,
/// 2 sub-stream size
pub fn h_number_rt() {
    let v = rt::u64();
    let mut w = writer();
    let which = p(0);
    rt::assume(which != 0 || v <= u64::MAX - 32); // packed data begins at offset 32
    let (ps, us) = match which {
        0 => (v, 5),
        1 => (5, v),
        _ => (5, u64::MAX),
    };
    if which < 2 {
        w.vse_add_folder(lzma(), ps, 7, vec![us], 9, None);
    } else {
        w.vse_add_folder(lzma(), ps, 7, vec![us], 9, Some((vec![v, u64::MAX - v], vec![1, 2])));
    }
    let h = w.vse_header().unwrap();
    let mut canon = vec![];
    util::number(v, &mut canon);
    // the number has to appear in its shortest form right after its section marker
    let mark: &[u8] = match which {
        0 => &[0x06, 0x00, 0x01, 0x09],
        1 => &[0x00, 0x0C],
        _ => &[0x08, 0x0D, 0x02, 0x09],
    };
    let mut at = None;
    for i in 0..h.len() - mark.len() {
        // the marker bytes before the number are concrete
        if &h[i..i + mark.len()] == mark {
            at = Some(i + mark.len());
            break;
        }
    }
    let at = at.unwrap();
    check!(h.len() >= at + canon.len() && h[at..at + canon.len()] == canon[..]);
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            let got = match which {
                0 => a.pack_sizes[0],
                1 => a.folders[0].unpack_sizes[0],
                _ => a.sub_streams_info.unwrap().unpack_sizes[0],
            };
            check!(got == v);
        }
        Err(_) => check!(false),
    }
}

/// 0 stream, 1 directory, 2 empty file, 3 anti file, 4 anti directory
fn entry_kind(e: &mut SevenZArchiveEntry, k: usize) {
    e.has_stream = k == 0;
    e.is_directory = k == 1 || k == 4;
    e.is_anti_item = k == 3 || k == 4;
}

fn eq_entry(a: &SevenZArchiveEntry, b: &SevenZArchiveEntry) {
    check!(a.name == b.name);
    check!(a.has_stream == b.has_stream);
    check!(a.is_directory == b.is_directory);
    check!(a.is_anti_item == b.is_anti_item);
    check!(a.has_creation_date == b.has_creation_date);
    check!(a.has_access_date == b.has_access_date);
    check!(a.has_last_modified_date == b.has_last_modified_date);
    check!(a.has_windows_attributes == b.has_windows_attributes);
    check!(!b.has_creation_date || a.creation_date.to_raw() == b.creation_date.to_raw());
    check!(!b.has_access_date || a.access_date.to_raw() == b.access_date.to_raw());
    check!(!b.has_last_modified_date || a.last_modified_date.to_raw() == b.last_modified_date.to_raw());
    check!(!b.has_windows_attributes || a.windows_attributes == b.windows_attributes);
    check!(a.has_crc == b.has_crc);
    check!(!b.has_crc || a.crc == b.crc);
    check!(a.size == b.size);
}

/// File records survive writing and reading. params: concrete entries of kind q before, q, symbolic entries, which facts
/// (bit 0 kinds, 1 ctime, 2 atime, 3 mtime, 4 attributes), entries after (kind q)
pub fn h_meta() {
    let (pre, q, n, what, post) = (p(0), p(1), p(2), p(3), p(4));
    let mut want: Vec<SevenZArchiveEntry> = vec![];
    for i in 0..pre + n + post {
        let mut e = SevenZArchiveEntry::new();
        e.name = format_name(i);
        let sym = i >= pre && i < pre + n;
        let k = if sym && what & 1 != 0 { rt::choose(5) } else { q };
        entry_kind(&mut e, k);
        if sym {
            if what & 2 != 0 {
                e.has_creation_date = rt::bool();
                e.creation_date = rt::u64().into();
            }
            if what & 4 != 0 {
                e.has_access_date = rt::bool();
                e.access_date = rt::u64().into();
            }
            if what & 8 != 0 {
                e.has_last_modified_date = rt::bool();
                e.last_modified_date = rt::u64().into();
            }
            if what & 16 != 0 {
                e.has_windows_attributes = rt::bool();
                e.windows_attributes = rt::u32();
            }
        }
        if e.has_stream {
            e.size = 3 + i as u64;
            e.has_crc = true;
            e.crc = 0x1000 + i as u64;
        }
        want.push(e);
    }
    let mut w = writer();
    for e in &want {
        if e.has_stream {
            w.vse_add_folder(lzma(), 5, 77, vec![e.size], e.crc as u32, None);
        }
        w.vse_add_file(e.clone());
    }
    let h = w.vse_header().unwrap();
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            check!(a.files.len() == want.len());
            for i in 0..want.len() {
                eq_entry(&a.files[i], &want[i]);
            }
        }
        Err(_) => check!(false),
    }
}
/// Names survive. params: files, chars per name
pub fn h_names() {
    let (n, k) = (p(0), p(1));
    let mut want = vec![];
    for _ in 0..n {
        let mut s = String::new();
        for _ in 0..k {
            let c = rt::u32();
            rt::assume(c != 0 && (c < 0xD800 || c > 0xDFFF) && c <= 0x10FFFF);
            s.push(char::from_u32(c).unwrap());
        }
        want.push(s);
    }
    let mut w = writer();
    for s in &want {
        let mut e = SevenZArchiveEntry::new();
        e.name = s.clone();
        e.is_directory = true;
        w.vse_add_file(e);
    }
    let h = w.vse_header().unwrap();
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            check!(a.files.len() == n);
            for i in 0..n {
                check!(a.files[i].name.len() == want[i].len());
                check!(a.files[i].name.as_bytes() == want[i].as_bytes());
            }
        }
        Err(_) => check!(false),
    }
}

/// Packed sizes, folder sizes, digests, sub-streams: writer to reader. params: folders, wide number index, sub-stream
/// counts packed 4 bits each (0 = folder of one plain entry, k = solid folder of k entries, 15 = solid folder of 0 entries)
pub fn h_layout() {
    let (n, wide, shape) = (p(0), p(1), p(2));
    let mut w = writer();
    let mut want = vec![];
    let mut k = 0;
    let mut next = |k: &mut usize| {
        *k += 1;
        num(*k - 1 == wide)
    };
    let mut nfile = 0;
    for f in 0..n {
        let solid = (shape >> (4 * f)) & 15;
        let psize = next(&mut k);
        let pcrc = rt::u32();
        let crc = rt::u32();
        let (total, subs) = match solid {
            0 => {
                let t = next(&mut k);
                (t, None)
            }
            15 => (0, Some((vec![], vec![]))),
            s => {
                let mut sz = vec![];
                let mut cr = vec![];
                let mut tot = 0u64;
                for _ in 0..s {
                    let x = next(&mut k);
                    rt::assume(tot.checked_add(x).is_some());
                    tot = tot.wrapping_add(x);
                    sz.push(x);
                    cr.push(rt::u32());
                }
                (tot, Some((sz, cr)))
            }
        };
        w.vse_add_folder(lzma(), psize, pcrc, vec![total], crc, subs.clone());
        let fl: Vec<(u64, u32)> = match &subs {
            None => vec![(total, crc)],
            Some((s, c)) if s.len() == 1 => vec![(s[0], c[0])],
            Some((s, c)) => s.iter().cloned().zip(c.iter().cloned()).collect(),
        };
        // a solid folder of one entry: folder digest and entry digest are the same number
        if solid == 1 {
            rt::assume(fl[0].1 == crc);
        }
        for x in &fl {
            let mut e = SevenZArchiveEntry::new();
            e.name = format_name(nfile);
            nfile += 1;
            e.has_stream = true;
            e.size = x.0;
            e.crc = x.1 as u64;
            e.has_crc = true;
            w.vse_add_file(e);
        }
        want.push((psize, pcrc, total, crc, fl));
    }
    let mut fit = Some(0u64);
    for x in &want {
        fit = fit.and_then(|f| f.checked_add(x.0));
    }
    // the reader refuses positions outside of 0..2^64
    rt::assume(fit.and_then(|f| f.checked_add(32)).is_some());
    let h = w.vse_header().unwrap();
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            check!(a.pack_pos == 0);
            check!(a.pack_sizes.len() == n && a.folders.len() == n);
            let mut file = 0;
            let mut off = 0u64;
            for f in 0..n {
                let (psize, pcrc, total, crc, fl) = &want[f];
                check!(a.pack_sizes[f] == *psize);
                // a checksum of zero may also be left undefined
                check!(if a.pack_crcs_defined.contains(f) { a.pack_crcs[f] == *pcrc as u64 } else { *pcrc == 0 });
                check!(a.folders[f].unpack_sizes == [*total]);
                check!(a.folders[f].has_crc && a.folders[f].crc == *crc as u64);
                check!(a.folders[f].num_unpack_sub_streams == fl.len());
                check!(a.folders[f].coders.len() == 1 && a.folders[f].coders[0].decompression_method_id() == SevenZMethod::ID_LZMA);
                check!(a.stream_map.pack_stream_offsets[f] == off);
                off += psize;
                for x in fl {
                    let e = &a.files[file];
                    check!(e.has_stream && e.size == x.0 && e.has_crc && e.crc == x.1 as u64);
                    check!(a.stream_map.file_folder_index[file] == Some(f));
                    file += 1;
                }
            }
            check!(file == a.files.len());
        }
        Err(_) => check!(false),
    }
}

