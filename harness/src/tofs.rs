//! Extraction into (and compression from) a file system.
use crate::fs;
use crate::util::{self, chain, coder, drain, file, p, RFolder, Src};
use crate::{check, rt};
use sevenz_rust::{Password, SevenZArchiveEntry};
use std::io::Read;
use std::path::PathBuf;

/// Where a name below a directory leads, judged by its text alone: None if it leaves the directory on the way.
fn inside(name: &[u8]) -> Option<Vec<u8>> {
    if name.first() == Some(&b'/') {
        return None;
    }
    let mut at: Vec<Vec<u8>> = vec![];
    for c in name.split(|b| *b == b'/') {
        if c == b".." {
            at.pop()?;
        } else if !c.is_empty() && c != b"." {
            at.push(c.to_vec());
        }
    }
    Some(at.join(&b'/'))
}
/// No entry name leads out of the destination. params: symbolic characters, fixed prefix (0 none, 1 "a/", 2 "../", 3 "a/../"),
/// extraction (0 recorded, 1 to the file system), directory entry
pub fn h_contain() {
    let (n, pre, real, dir) = (p(0), p(1), p(2), p(3));
    let mut name: Vec<u8> = [&b""[..], b"a/", b"../", b"a/../"][pre].to_vec();
    for _ in 0..n {
        let c = rt::u8();
        rt::assume(c > 0 && c < 0x80);
        name.push(c);
    }
    let mut e = file("");
    e.name = name.iter().map(|c| *c as u16).collect();
    let h = if dir != 0 {
        e.stream = false;
        e.dir = true;
        util::header_of(&[e])
    } else {
        util::header(0, &[(1, None)], &[chain(&[coder(&[0], &[])], &[1])], &[e])
    };
    let arc = util::archive(if dir != 0 { &[] } else { b"x" }, &h);
    let want = inside(&name);
    fs::fs().add("/up", true, vec![]);
    fs::fs().add("/up/d", true, vec![]);
    fs::fs().add("/up/d/a", true, vec![]);
    let before = fs::fs().nodes.len();
    if real == 0 {
        let mut got = None;
        let r = sevenz_rust::decompress_with_extract_fn(Src::new(arc, 0), "/up/d", |_, _, path| {
            got = Some(path.as_os_str().as_encoded_bytes().to_vec());
            Ok(true)
        });
        match (want, got) {
            (Some(_), Some(path)) => {
                rt::reach(1);
                check!(r.is_ok());
                check!(path.len() >= 5 && path[..5] == b"/up/d"[..] && (path.len() == 5 || path[5] == b'/'));
                check!(path.len() == 5 || path[6..] == name[..]);
            }
            (None, None) => {
                rt::reach(2);
                check!(r.is_err());
            }
            _ => check!(false),
        }
    } else {
        let r = sevenz_rust::decompress(Src::new(arc, 0), "/up/d");
        for k in before..fs::fs().nodes.len() {
            let q = &fs::fs().nodes[k];
            check!(q.path.len() > 6 && q.path[..6] == b"/up/d/"[..]);
        }
        match want {
            None => {
                rt::reach(2);
                check!(r.is_err() && fs::fs().nodes.len() == before);
            }
            Some(w) if !w.is_empty() && w != b"a" && name.last() != Some(&b'/') => {
                rt::reach(1);
                // a name through a directory that does not exist ("b/../c") cannot be resolved before it is created
                if r.is_ok() {
                    let mut full = b"/up/d/".to_vec();
                    full.extend_from_slice(&w);
                    match fs::fs().find(&full) {
                        Some(k) => check!(fs::fs().nodes[k].dir == (dir != 0)),
                        None => check!(false),
                    }
                }
            }
            _ => {}
        }
    }
}

/// (formatting is not executed symbolically)
fn cat(s: &[&str]) -> String {
    s.concat()
}
/// 100 ns ticks since 1601 of a Unix time
fn nt(t: (i64, u32)) -> u64 {
    ((t.0 + 11_644_473_600) as u64).wrapping_mul(10_000_000).wrapping_add(t.1 as u64 / 100)
}
/// Extraction to the file system creates exactly the entries. params: entries, API (0 reader, 1 file, 2 reader and password,
/// 3 file and password, 4 reader and closure calling the default), fault (0 none, one call fails: 1 changing, 2 reading, 3 either), short writes,
/// destination exists (1; 2: with older files), kinds allowed, symbolic time
pub fn h_extract() {
    let (n, api, fault, short, exists, kinds, time) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6));
    let mut fs_ = vec![];
    let mut f: RFolder = chain(&[coder(&[0], &[])], &[0]);
    f.subs.clear();
    let mut body = vec![];
    let mut want: Vec<(String, bool, Vec<u8>, Option<u64>)> = vec![];
    let mut dirs: Vec<String> = vec!["/o".into()];
    for i in 0..n {
        let mut l = String::new();
        l.push((b'a' + i as u8) as char);
        let (name, data) = match rt::choose(kinds as u64) {
            0 => (cat(&[&l]), Some(rt::vec(2))),
            1 => (cat(&[&l]), None),
            2 => (cat(&["d/", &l]), Some(rt::vec(1))),
            3 => (cat(&["d/e", &l, "/", &l]), Some(vec![])),
            4 => ("d".to_string(), None),
            _ => (cat(&["x", &l, "/y"]), None),
        };
        // kinds 1 and 5: 1 is an empty file, 4 and 5 are directories
        let dir = data.is_none() && name.len() != 1 || name == "d";
        let mut e = file(&name);
        let full = cat(&["/o/", &name]);
        if name == "d" && want.iter().any(|w| w.0 == full) {
            rt::assume(false);
        }
        let mut up = full.as_str();
        while let Some(k) = up.rfind('/') {
            up = &up[..k];
            if up.len() > 2 && !dirs.iter().any(|d| d == up) {
                dirs.push(up.to_string());
            }
        }
        if dir && !dirs.contains(&full) {
            dirs.push(full.clone());
        }
        e.stream = data.as_ref().map_or(false, |d| !d.is_empty());
        e.dir = dir;
        // 1: around a full second, 2: around the Unix epoch, 3: none recorded
        let t = match time {
            1 => nt((1_599_999_999, 999_990_000)) + rt::u8() as u64,
            2 => nt((0, 0)) + rt::u8() as u64,
            _ => nt((1_600_000_000 + i as i64, 100)),
        };
        e.mtime = if time == 3 { None } else { Some(t) };
        e.atime = if time == 2 { Some(t + 7) } else { None };
        let d = data.unwrap_or_default();
        if e.stream {
            f.subs.push((d.len() as u64, Some(util::crc(&d))));
            body.extend_from_slice(&d);
        }
        want.push((full, dir, d.clone(), if d.is_empty() { None } else { Some(t) }));
        fs_.push(e);
    }
    f.sizes = vec![body.len() as u64];
    let h = if f.subs.is_empty() { util::header_of(&fs_) } else { util::header(0, &[(body.len() as u64, None)], &[f], &fs_) };
    let arc = util::archive(&body, &h);
    if exists > 0 {
        fs::fs().add("/o", true, vec![]);
        if exists > 1 {
            fs::fs().add("/o/a", false, vec![9; 7]);
            fs::fs().add("/o/other", false, vec![1]);
            rt::assume(!want.iter().any(|w| w.0 == "/o/a" && w.1));
        }
    }
    fs::fs().add("/in.7z", false, arc.clone());
    fs::fs().short = short;
    fs::fs().fault = fault as u8;
    let src = Src::new(arc, 0);
    let pw = || Password::from("pw");
    let r = match api {
        0 => sevenz_rust::decompress(src, "/o"),
        1 => sevenz_rust::decompress_file("/in.7z", "/o"),
        2 => sevenz_rust::decompress_with_password(src, "/o", pw()),
        3 => sevenz_rust::decompress_file_with_password("/in.7z", "/o", pw()),
        _ => sevenz_rust::decompress_with_extract_fn(src, "/o", |e: &SevenZArchiveEntry, rd: &mut dyn Read, d: &PathBuf| {
            sevenz_rust::default_entry_extract_fn(e, rd, d)
        }),
    };
    if fs::fs().hit {
        rt::reach(2);
        // a call that failed is reported, never passed over
        check!(r.is_err());
        return;
    }
    check!(r.is_ok());
    rt::reach(1);
    for (path, dir, data, at) in &want {
        match fs::fs().get(path) {
            None => check!(false),
            Some(node) => {
                check!(node.dir == *dir);
                check!(node.data == *data);
                if let Some(t) = at {
                    // what is not recorded is left as the file system made it
                    check!(node.times[1] == if time == 3 { fs::NOW } else { node.times[1] });
                    check!(time == 3 || nt(node.times[1]) == *t);
                    check!(if time == 2 { nt(node.times[0]) == *t + 7 } else { node.times[0] == (0, 0) });
                }
            }
        }
    }
    // and nothing else
    for (path, dir, data) in fs::below("") {
        if path == "/in.7z" {
            continue;
        }
        if path == "/o/other" {
            check!(exists == 2 && data == [1]);
            continue;
        }
        check!(if dir { dirs.contains(&path) } else { want.iter().any(|w| w.0 == path) || exists == 2 && path == "/o/a" });
    }
    let _ = drain;
}

/// A directory tree (or a file) goes into an archive and comes out of it again. params: API (0 compress_to_path, 1 push_source_path,
/// 2 push_source_path_non_solid, 3 compress_to_path_encrypted, 4 the same without a password, 5 compress to a writer), nodes,
/// source (0 directory, 1 single file), fault (0 none, one call fails: 1 changing, 2 reading, 3 either), filter
pub fn h_tree() {
    use sevenz_rust::{SevenZMethod, SevenZReader, SevenZWriter};
    let (api, n, single, fault, filter) = (p(0), p(1), p(2), p(3), p(4));
    let f = fs::fs();
    f.add("/s", true, vec![]);
    f.add("/w", true, vec![]);
    // what the archive has to hold: path below the source, directory, content, modification time
    let mut want: Vec<(String, bool, Vec<u8>, u64)> = vec![];
    let mut dirs: Vec<String> = vec!["/s".into()];
    let mut seed = 3u8;
    let nodes = if single != 0 { 1 } else { n };
    for i in 0..nodes {
        let l = String::from((b'a' + i as u8) as char);
        let parent = dirs[rt::choose(dirs.len() as u64)].clone();
        let path = cat(&[&parent, "/", &l]);
        let kind = if single != 0 { 1 + rt::choose(2) } else { rt::choose(3) };
        let data: Vec<u8> = (0..[0, 0, 40 + 1000 * (i == 1) as usize][kind])
            .map(|_| {
                seed = seed.wrapping_mul(13).wrapping_add(7);
                seed & 31
            })
            .collect();
        let node = f.add(&path, kind == 0, data.clone());
        let t = (1_500_000_000 + i as i64, 123_456_700 + 100 * i as u32);
        node.times = [(t.0 + 5, 100), t, (t.0 - 9, 200)];
        if kind == 0 {
            dirs.push(path.clone());
        }
        want.push((path, kind == 0, data, nt(t)));
    }
    let skip = |p: &str| filter != 0 && (p == "/s/b" || p.starts_with("/s/b/"));
    let src = if single != 0 { "/s/a" } else { "/s" };
    if api == 1 || api == 2 {
        // directories themselves are not recorded by these
        want.retain(|w| !w.1);
    }
    if filter != 0 {
        want.retain(|w| !skip(&w.0));
    }
    f.fault = fault as u8;
    let dest = "/w/n/x.7z";
    let mut pw = Password::empty();
    let r = match api {
        0 => sevenz_rust::compress_to_path(src, dest),
        3 => {
            pw = Password::from("pw");
            sevenz_rust::compress_to_path_encrypted(src, dest, pw.clone())
        }
        4 => sevenz_rust::compress_to_path_encrypted(src, dest, Password::empty()),
        5 => std::fs::create_dir_all("/w/n").map_err(|e| e.into()).and_then(|_| {
            let file = std::fs::File::create(dest)?;
            sevenz_rust::compress(src, file).map(|_| ())
        }),
        _ => std::fs::create_dir_all("/w/n").map_err(|e| e.into()).and_then(|_| {
            let mut w = SevenZWriter::create(dest)?;
            w.set_content_methods(vec![SevenZMethod::LZMA2.into()]);
            let ok = |p: &std::path::Path| !skip(p.to_str().unwrap_or(""));
            match api {
                1 => w.push_source_path(src, ok)?,
                _ => w.push_source_path_non_solid(src, ok)?,
            };
            w.finish()?;
            Ok(())
        }),
    };
    f.fault = 0;
    if f.hit {
        rt::reach(2);
        // a call that failed is reported, never passed over
        check!(r.is_err());
        return;
    }
    check!(r.is_ok());
    rt::reach(1);
    // the source is as it was
    for w in &want {
        check!(f.get(&w.0).map_or(false, |k| k.dir == w.1 && k.data == w.2));
    }
    let strip = if single != 0 { 3 } else { src.len() + 1 };
    match SevenZReader::open(dest, pw.clone()) {
        Err(_) => return check!(false),
        Ok(r) => {
            let files: Vec<_> = r.archive().files.iter().filter(|e| !e.name.is_empty()).collect();
            check!(files.len() == want.len());
            for w in &want {
                match files.iter().find(|e| e.name == w.0[strip..]) {
                    None => check!(false),
                    Some(e) => {
                        check!(e.is_directory == w.1 && e.size == w.2.len() as u64);
                        check!(e.has_last_modified_date && u64::from(e.last_modified_date) == w.3);
                    }
                }
            }
        }
    }
    if api == 3 {
        check!(SevenZReader::open(dest, Password::empty()).is_err());
    }
    check!(sevenz_rust::decompress_file_with_password(dest, "/o", pw).is_ok());
    for w in &want {
        match f.get(&cat(&["/o/", &w.0[strip..]])) {
            None => check!(false),
            Some(k) => {
                check!(k.dir == w.1 && k.data == w.2);
                check!(w.1 || w.2.is_empty() || nt(k.times[1]) == w.3);
            }
        }
    }
}
