//! Writing: what is pushed into a SevenZWriter is what a reader finds, whatever the sink and the sources do.
use crate::util::{self, p, Src};
use crate::{check, rt};
use sevenz_rust::{Password, SevenZArchiveEntry, SevenZMethod, SevenZMethodConfiguration, SevenZReader, SevenZWriter, SourceReader};
use sevenz_rust::{AesEncoderOptions, SeqReader};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// What happened to a sink.
#[derive(Clone, Default)]
pub struct Log {
    pub data: Vec<u8>,
    pos: usize,
    /// bytes one write takes at most (0: all)
    short: usize,
    /// calls fail from now on: 1 any one, 2 all from some one on
    pub fault: usize,
    pub failed: bool,
    /// every write: position, bytes
    pub writes: Vec<(usize, Vec<u8>)>,
}
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<Log>>);
impl Sink {
    pub fn new(short: usize) -> Self {
        Sink(Rc::new(RefCell::new(Log { short, ..Default::default() })))
    }
    fn tick(&self) -> io::Result<()> {
        let mut l = self.0.borrow_mut();
        if l.fault != 0 && (l.failed && l.fault == 2 || !l.failed && rt::choose(2) == 1) {
            l.failed = true;
            return Err(io::Error::from(io::ErrorKind::StorageFull));
        }
        Ok(())
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick()?;
        let mut l = self.0.borrow_mut();
        let n = if l.short != 0 { b.len().min(l.short) } else { b.len() };
        let (at, end) = (l.pos, l.pos + n);
        if l.data.len() < end {
            l.data.resize(end, 0);
        }
        l.data[at..end].copy_from_slice(&b[..n]);
        l.writes.push((at, b[..n].to_vec()));
        l.pos = end;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick()
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let mut l = self.0.borrow_mut();
        let n = match p {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(p) => l.data.len() as i64 + p,
            SeekFrom::Current(p) => l.pos as i64 + p,
        };
        if n < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        l.pos = n as usize;
        Ok(n as u64)
    }
}
/// A source that may fail at its end.
struct Source {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    fails: bool,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.data.len() - self.pos).min(self.max);
        if n == 0 && self.fails {
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub const PW: &str = "p\u{e9}";
pub fn aes(tag: u8, pw: &str) -> SevenZMethodConfiguration {
    let mut o = AesEncoderOptions { password: Password::from(pw), iv: [tag; 16], salt: [tag ^ 0x55; 16], num_cycles_power: 0 };
    o.iv[3] = 9;
    o.salt[15] = 1;
    o.into()
}
pub fn ent(name: &str) -> SevenZArchiveEntry {
    let mut e = SevenZArchiveEntry::default();
    e.name = name.to_string();
    e
}
pub struct Run {
    /// name, content (None: directory)
    pub want: Vec<(String, Option<Vec<u8>>)>,
    pub errors: usize,
}
/// Pushes entries of the given kinds. 0 directory, 1 file, 2 file without a reader, 3 two files in one block, 4 file whose
/// reader is empty, 5 file whose reader fails, 6 block whose second reader fails, 7 file with its own methods, 8 block of three
/// with an empty one
pub fn push<W: Write + Seek>(w: &mut SevenZWriter<W>, m: usize, kinds: &[usize], max: usize, len: usize, data: &mut dyn FnMut(usize) -> Vec<u8>) -> Run {
    let mut run = Run { want: vec![], errors: 0 };
    let mut c = b'a';
    let mut next = || {
        c += 1;
        String::from((c - 1) as char)
    };
    let max = if max == 0 { usize::MAX } else { max };
    let src = |d: &[u8], fails| Source { data: d.to_vec(), pos: 0, max, fails };
    for &k in kinds {
        match k {
            0 => {
                let n = next();
                let mut e = ent(&n);
                e.is_directory = true;
                match w.push_archive_entry::<Source>(e, None) {
                    Ok(_) => run.want.push((n, None)),
                    Err(_) => run.errors += 1,
                }
            }
            1 | 4 | 5 | 7 => {
                let n = next();
                let e = ent(&n);
                let d = if k == 4 { vec![] } else { data(len) };
                if k == 7 {
                    w.set_content_methods(vec![aes(0x21, PW), aes(0x22, PW)]);
                }
                let res = w.push_archive_entry(e, Some(src(&d, k == 5))).cloned();
                w.set_content_methods(methods(m));
                match res {
                    Ok(e) => {
                        check!(k != 5);
                        check!(e.size == d.len() as u64 && e.crc == util::crc(&d) as u64 && e.has_stream && e.has_crc);
                        check!(m != 1 || e.compressed_size == (d.len() as u64 + 15) / 16 * 16);
                        run.want.push((n, Some(d)));
                    }
                    Err(_) => run.errors += 1,
                }
            }
            2 => {
                let n = next();
                match w.push_archive_entry::<Source>(ent(&n), None) {
                    Ok(e) => {
                        check!(e.size == 0 && !e.has_stream);
                        run.want.push((n, Some(vec![])))
                    }
                    Err(_) => run.errors += 1,
                }
            }
            _ => {
                let mut ds = vec![data(1), data(len)];
                if k == 8 {
                    ds.insert(1, vec![]);
                }
                let ns: Vec<String> = ds.iter().map(|_| next()).collect();
                let rs: Vec<SourceReader<Source>> = ds.iter().enumerate().map(|(i, d)| SourceReader::new(src(d, k == 6 && i == 1))).collect();
                match w.push_archive_entries(ns.iter().map(|n| ent(n)).collect(), SeqReader::new(rs)) {
                    Ok(_) => {
                        check!(k != 6);
                        run.want.extend(ns.into_iter().zip(ds.into_iter().map(Some)));
                    }
                    Err(_) => run.errors += 1,
                }
            }
        }
    }
    run
}
/// The archive holds exactly this.
pub fn matches(arc: Vec<u8>, want: &[(String, Option<Vec<u8>>)], pw: &str) {
    let len = arc.len() as u64;
    let mut r = match SevenZReader::new(Src::new(arc, 0), len, Password::from(pw)) {
        Ok(r) => r,
        Err(_) => return check!(false),
    };
    check!(r.archive().files.len() == want.len());
    for (f, w) in r.archive().files.iter().zip(want) {
        check!(f.name() == w.0 && f.is_directory() == w.1.is_none());
        let d = w.1.clone().unwrap_or_default();
        check!(f.size() == d.len() as u64);
        check!(!f.has_stream() || f.crc == util::crc(&d) as u64);
    }
    let mut seen = 0;
    let res = r.for_each_entries(|e, rd| {
        let most = want.iter().map(|w| w.1.as_ref().map_or(0, |d| d.len())).max().unwrap_or(0);
        let got = util::drain(rd, if most > 500 { 333 } else { 5 }, most + 50).map_err(|e| sevenz_rust::Error::Io(e, "".into()))?;
        match want.iter().find(|w| w.0 == e.name()) {
            Some(w) => check!(w.1.clone().unwrap_or_default() == got),
            None => check!(false),
        }
        seen += 1;
        Ok(true)
    });
    check!(res.is_ok() && seen == want.len());
}
fn methods(m: usize) -> Vec<SevenZMethodConfiguration> {
    match m {
        1 => vec![aes(1, PW)],
        2 => vec![aes(1, PW), aes(2, PW)],
        3 => vec![SevenZMethod::LZMA2.into()],
        4 => vec![SevenZMethod::LZMA.into()],
        _ => vec![aes(1, PW), SevenZMethod::LZMA2.into()],
    }
}
/// Everything pushed is read back. params: entries, kinds (bit set), methods, source delivery, short writes, bytes, faults
/// (1: any one sink call fails, 2: and all after it)
#[cfg(vse_hooks)]
pub fn h_push() {
    let (n, kinds, m, max, short, len, fault) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6));
    let sink = Sink::new(short);
    let mut w = match SevenZWriter::new(sink.clone()) {
        Ok(w) => w,
        Err(_) => return check!(false),
    };
    w.set_content_methods(methods(m));
    let ks: Vec<usize> = (0..n)
        .map(|_| {
            let k = rt::choose(9);
            rt::assume(kinds >> k & 1 == 1);
            k
        })
        .collect();
    let fails = ks.iter().filter(|k| **k == 5 || **k == 6).count();
    sink.0.borrow_mut().fault = fault;
    let run = push(&mut w, m, &ks, max, len, &mut |n| rt::vec(n));
    let failed = sink.0.borrow().failed;
    sink.0.borrow_mut().fault = 0;
    if failed {
        // a sink that fails is noticed, and what was pushed completely is not harmed
        rt::reach(2);
        check!(run.errors > fails || fails > 0 && run.errors == fails);
    } else {
        rt::reach(1);
        check!(run.errors == fails);
    }
    match w.vse_header() {
        Ok(h) => {
            let mut body = sink.0.borrow().data.clone();
            if body.len() < 32 {
                body.resize(32, 0);
            }
            let a = util::archive(&body[32..], &h);
            matches(a, &run.want, PW);
        }
        Err(_) => check!(false),
    }
}
/// The same with the archive finished (concrete contents). params: entries, kinds, methods, source delivery, short writes,
/// bytes, faults, encrypt the header
pub fn h_finish() {
    let (n, kinds, m, max, short, len, fault, enc) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7));
    let sink = Sink::new(short);
    let mut w = match SevenZWriter::new(sink.clone()) {
        Ok(w) => w,
        Err(_) => return check!(false),
    };
    w.set_content_methods(methods(m));
    w.set_encrypt_header(enc != 0);
    let ks: Vec<usize> = (0..n)
        .map(|_| {
            let k = rt::choose(9);
            rt::assume(kinds >> k & 1 == 1);
            k
        })
        .collect();
    let mut seed = 7u8;
    let run = push(&mut w, m, &ks, max, len, &mut |n| {
        (0..n)
            .map(|_| {
                seed = seed.wrapping_mul(31).wrapping_add(11);
                seed & 0x7f
            })
            .collect()
    });
    check!(run.errors == ks.iter().filter(|k| **k == 5 || **k == 6).count());
    sink.0.borrow_mut().fault = fault;
    let r = w.finish();
    if sink.0.borrow().failed {
        rt::reach(2);
        check!(r.is_err());
        return;
    }
    rt::reach(1);
    check!(r.is_ok());
    let arc = sink.0.borrow().data.clone();
    if enc != 0 && (m == 1 || m == 2 || m > 4) {
        // without the password nothing is readable, names included
        let len = arc.len() as u64;
        check!(SevenZReader::new(Src::new(arc.clone(), 0), len, Password::empty()).is_err());
        check!(matches!(SevenZReader::new(Src::new(arc.clone(), 0), len, Password::empty()), Err(sevenz_rust::Error::PasswordRequired)));
    }
    matches(arc, &run.want, PW);
}
/// What opens and what it holds is right, or it does not open: never a part of the archive taken for the whole.
fn whole_or_nothing(arc: Vec<u8>, want: &[(String, Option<Vec<u8>>)]) {
    let len = arc.len() as u64;
    let mut r = match SevenZReader::new(Src::new(arc, 0), len, Password::from(PW)) {
        Ok(r) => r,
        Err(_) => return rt::reach(2),
    };
    check!(r.archive().files.len() == want.len());
    for (f, w) in r.archive().files.iter().zip(want) {
        check!(f.name() == w.0 && f.is_directory() == w.1.is_none());
        check!(f.size() == w.1.as_ref().map_or(0, |d| d.len() as u64));
    }
    let res = r.for_each_entries(|e, rd| {
        let got = match util::drain(rd, 5, 1000) {
            Ok(g) => g,
            Err(e) => return Err(sevenz_rust::Error::Io(e, "".into())),
        };
        match want.iter().find(|w| w.0 == e.name()) {
            Some(w) => check!(w.1.clone().unwrap_or_default() == got),
            None => check!(false),
        }
        Ok(true)
    });
    rt::reach(if res.is_ok() { 1 } else { 3 });
}
/// A crash while an archive is being written. params: entries, kinds, methods, short writes, bytes, encrypt the header,
/// mode (0 stops inside any write; 1 any one write is lost, with another one torn; 2: of the last n writes any are lost), n
pub fn h_crash() {
    let (n, kinds, m, short, len, enc, mode, last) = (p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7));
    let sink = Sink::new(short);
    let mut w = match SevenZWriter::new(sink.clone()) {
        Ok(w) => w,
        Err(_) => return check!(false),
    };
    w.set_content_methods(methods(m));
    w.set_encrypt_header(enc != 0);
    let ks: Vec<usize> = (0..n).map(|i| kinds >> (4 * i) & 15).collect();
    let mut seed = 7u8;
    let run = push(&mut w, m, &ks, 0, len, &mut |n| {
        (0..n)
            .map(|_| {
                seed = seed.wrapping_mul(31).wrapping_add(11);
                seed | 1
            })
            .collect()
    });
    check!(w.finish().is_ok());
    let log = sink.0.borrow().writes.clone();
    let total = log.len();
    let mut keep: Vec<usize> = log.iter().map(|w| w.1.len()).collect();
    match mode {
        0 => {
            let at = rt::choose(total as u64);
            let torn = rt::choose(keep[at] as u64 + 1);
            keep[at] = torn;
            for k in &mut keep[at + 1..] {
                *k = 0;
            }
        }
        1 => {
            let at = rt::choose(total as u64);
            keep[at] = 0;
            let at = rt::choose(total as u64);
            if keep[at] != 0 {
                keep[at] = rt::choose(keep[at] as u64 + 1);
            }
        }
        _ => {
            let first = total.saturating_sub(last);
            for k in &mut keep[first..] {
                if rt::choose(2) == 1 {
                    *k = 0;
                }
            }
        }
    }
    let mut img = vec![];
    for ((at, d), k) in log.iter().zip(&keep) {
        if *k > 0 {
            if img.len() < at + k {
                img.resize(at + k, 0);
            }
            img[*at..at + k].copy_from_slice(&d[..*k]);
        }
    }
    if img.len() < 32 && rt::choose(2) == 1 {
        img.resize(32, 0);
    }
    if keep.iter().zip(&log).all(|(k, w)| *k == w.1.len()) {
        matches(img, &run.want, PW);
        return rt::reach(1);
    }
    whole_or_nothing(img, &run.want);
}
