//! Archive headers: numbers, file metadata, stream layout; written by the crate, read by the crate, against the format.
use crate::util::{self, p, RFile, RFolder};
use crate::{check, rt};
use sevenz_rust::{Archive, Error};
use std::io::Cursor;

pub fn read_bytes(a: Vec<u8>) -> Result<Archive, Error> {
    let len = a.len() as u64;
    Archive::read(&mut Cursor::new(a), len, &[])
}

/// Any NUMBER encoding in a header is read as the format defines it.
pub fn h_number() {
    let first = rt::u8();
    let rest: [u8; 8] = rt::bytes();
    let mut k = 0u32;
    while k < 8 && first & (0x80 >> k) != 0 {
        k += 1;
    }
    // the size of the only entry: a folder of one copy coder, its unpacked size is the number
    let mut h = vec![0x01, 0x04, 0x06, 0, 1, 9, 3, 0, 7, 0x0B, 1, 0, 1, 1, 0, 0x0C, first];
    h.extend_from_slice(&rest[..k as usize]);
    let mut want: u64 = 0;
    for i in 0..k as usize {
        want |= (rest[i] as u64) << (8 * i);
    }
    if k < 8 {
        let hi = (first & (0x7fu32 >> k) as u8) as u64;
        want |= hi << (8 * k);
    }
    h.extend_from_slice(&[0, 8, 0, 0]); // end of the folders, no sub-stream facts, end of the streams
    h.extend_from_slice(&[5, 1, 0x11, 5, 0, b'a', 0, 0, 0, 0, 0]); // one entry, end of the entries and of the header
    match read_bytes(util::archive(&[], &h)) {
        Ok(ar) => {
            rt::reach(1);
            check!(ar.files.len() == 1 && ar.files[0].size == want);
            check!(ar.folders[0].unpack_sizes == [want]);
        }
        Err(_) => check!(false),
    }
}

pub fn format_name(i: usize) -> String {
    let mut s = String::from("f");
    s.push((b'a' + (i % 26) as u8) as char);
    s
}

/// The reader understands file records as the format lays them out (reference writer). params as h_meta
pub fn h_files_read() {
    let (pre, q, n, what, post) = (p(0), p(1), p(2), p(3), p(4));
    let mut fs: Vec<RFile> = vec![];
    let mut folders = vec![];
    let mut pack = vec![];
    let mut sums = vec![];
    for i in 0..pre + n + post {
        let sym = i >= pre && i < pre + n;
        let k = if sym && what & 1 != 0 { rt::choose(5) } else { q };
        let mut f = util::file(&format_name(i));
        f.stream = k == 0;
        f.dir = k == 1 || k == 4;
        f.anti = k == 3 || k == 4;
        if sym {
            let o = |b: usize, v: u64| if what & b != 0 && rt::concretize(rt::bool() as u64) == 1 { Some(v) } else { None };
            f.ctime = o(2, if what & 2 != 0 { rt::u64() } else { 0 });
            f.atime = o(4, if what & 4 != 0 { rt::u64() } else { 0 });
            f.mtime = o(8, if what & 8 != 0 { rt::u64() } else { 0 });
            f.attr = o(16, if what & 16 != 0 { rt::u32() as u64 } else { 0 }).map(|x| x as u32);
        }
        if f.stream {
            let c = rt::u32();
            let mut d = util::chain(&[util::coder(&[0], &[])], &[3 + i as u64]);
            d.crc = Some(c);
            d.subs[0].1 = Some(c);
            folders.push(d);
            pack.push((3 + i as u64, None));
            sums.push((3 + i as u64, c as u64, true));
        } else {
            sums.push((0, 0, false));
        }
        fs.push(f);
    }
    let h = util::header(0, &pack, &folders, &fs);
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            check!(a.files.len() == fs.len());
            let mut folder = 0;
            for i in 0..fs.len() {
                let (f, e) = (&fs[i], &a.files[i]);
                check!(e.name == format_name(i));
                check!(e.has_stream == f.stream);
                check!(e.is_directory == (f.dir && !f.stream));
                check!(e.is_anti_item == (f.anti && !f.stream));
                check!(e.has_creation_date == f.ctime.is_some() && f.ctime.map_or(true, |t| e.creation_date.to_raw() == t));
                check!(e.has_access_date == f.atime.is_some() && f.atime.map_or(true, |t| e.access_date.to_raw() == t));
                check!(e.has_last_modified_date == f.mtime.is_some() && f.mtime.map_or(true, |t| e.last_modified_date.to_raw() == t));
                check!(e.has_windows_attributes == f.attr.is_some() && f.attr.map_or(true, |t| e.windows_attributes == t));
                check!(e.size == sums[i].0 && e.has_crc == sums[i].2 && (!e.has_crc || e.crc == sums[i].1));
                if f.stream {
                    check!(a.stream_map.file_folder_index[i] == Some(folder));
                    check!(a.stream_map.folder_first_file_index[folder] == i);
                    check!(a.stream_map.folder_first_pack_stream_index[folder] == folder);
                    folder += 1;
                } else {
                    check!(a.stream_map.file_folder_index[i].is_none());
                }
            }
        }
        Err(_) => check!(false),
    }
}

/// A 64-bit value; small unless it is the one the shard explores over its full range.
pub fn num(wide: bool) -> u64 {
    let v = rt::u64();
    if !wide {
        rt::assume(v < 0x80);
    }
    v
}

/// The same facts as the format lays them out, from the reference writer, digests and sizes optional.
/// params: folders, wide number index, sub-stream counts (4 bits each), flags: 1 pack digests symbolic, 2 folder digests
/// symbolic, 4 sub-stream digests symbolic, 8 symbolic pack position, 16 nine-byte numbers are left to h_number
pub fn h_layout_read() {
    let (n, wide, shape, flags) = (p(0), p(1), p(2), p(3));
    let mut k = 0;
    let mut next = |k: &mut usize| {
        *k += 1;
        num(*k - 1 == wide)
    };
    let opt = |on: bool| {
        let v = rt::u32();
        if !on || rt::concretize(rt::bool() as u64) == 1 {
            Some(v)
        } else {
            None
        }
    };
    let pos = if flags & 8 != 0 { rt::u64() } else { 0 };
    let mut folders: Vec<RFolder> = vec![];
    let mut pack = vec![];
    let mut fs = vec![];
    let mut offs = Some(0u64);
    for f in 0..n {
        let subs = (shape >> (4 * f)) & 15;
        let ps = next(&mut k);
        pack.push((ps, opt(flags & 1 != 0)));
        offs = offs.and_then(|o| o.checked_add(ps));
        let mut d = util::chain(&[util::coder(&[0x21], &[24])], &[0]);
        d.crc = opt(flags & 2 != 0);
        d.subs.clear();
        let mut tot = 0u64;
        for _ in 0..subs {
            let x = next(&mut k);
            rt::assume(tot.checked_add(x).is_some());
            tot = tot.wrapping_add(x);
            d.subs.push((x, opt(flags & 4 != 0)));
            fs.push(util::file(&format_name(fs.len())));
        }
        d.sizes = vec![tot];
        folders.push(d);
    }
    // the reader refuses positions outside of 0..2^64
    rt::assume(offs.and_then(|o| o.checked_add(pos)).and_then(|o| o.checked_add(32)).is_some());
    let h = util::header(pos, &pack, &folders, &fs);
    match read_bytes(util::archive(&[], &h)) {
        Ok(a) => {
            rt::reach(1);
            check!(a.pack_pos == pos);
            check!(a.pack_sizes.len() == n && a.folders.len() == n && a.files.len() == fs.len());
            // no digest of any kind in the sub-stream section: the section carries none, single streams keep the folder's
            let mut file = 0;
            for f in 0..n {
                check!(a.pack_sizes[f] == pack[f].0);
                check!(a.pack_crcs_defined.contains(f) == pack[f].1.is_some());
                check!(pack[f].1.map_or(true, |c| a.pack_crcs[f] == c as u64));
                check!(a.folders[f].unpack_sizes == folders[f].sizes);
                check!(a.folders[f].has_crc == folders[f].crc.is_some());
                check!(folders[f].crc.map_or(true, |c| a.folders[f].crc == c as u64));
                check!(a.folders[f].num_unpack_sub_streams == folders[f].subs.len());
                let single = folders[f].subs.len() == 1 && folders[f].crc.is_some();
                for s in &folders[f].subs {
                    let e = &a.files[file];
                    let c = if single { folders[f].crc } else { s.1 };
                    check!(e.has_stream && e.size == s.0);
                    check!(e.has_crc == c.is_some());
                    check!(c.map_or(true, |c| e.crc == c as u64));
                    check!(a.stream_map.file_folder_index[file] == Some(f));
                    file += 1;
                }
            }
        }
        Err(_) => check!(false),
    }
}
