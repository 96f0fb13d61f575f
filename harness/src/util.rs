//! Reference pieces written from the 7z format description, independent of the crate.
use crate::rt;
use sevenz_rust::{Error, Password, SevenZReader};
use std::io::{self, Read, Seek, SeekFrom};

/// Checksum used by every 7z CRC field (the stub stands in for CRC-32/ISO-HDLC in both builds).
pub fn crc(data: &[u8]) -> u32 {
    const C: crc::Crc<u32> = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
    C.checksum(data)
}

/// Signature header + packed streams + header.
pub fn archive(pack: &[u8], header: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(32 + pack.len() + header.len());
    v.extend_from_slice(&[b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C, 0, 4]);
    let mut sh = [0u8; 20];
    sh[0..8].copy_from_slice(&(pack.len() as u64).to_le_bytes());
    sh[8..16].copy_from_slice(&(header.len() as u64).to_le_bytes());
    sh[16..20].copy_from_slice(&crc(header).to_le_bytes());
    v.extend_from_slice(&crc(&sh).to_le_bytes());
    v.extend_from_slice(&sh);
    v.extend_from_slice(pack);
    v.extend_from_slice(header);
    v
}

/// 7z NUMBER, canonical (shortest) form.
pub fn number(v: u64, out: &mut Vec<u8>) {
    let mut n = 0u32; // extra bytes
    while n < 8 && v >= 1u64 << (7 * (n + 1)) {
        n += 1;
    }
    if n == 8 {
        out.push(0xff);
        out.extend_from_slice(&v.to_le_bytes());
        return;
    }
    let top = !(0xffu32 >> n) as u8;
    out.push(top | (v >> (8 * n)) as u8);
    for i in 0..n {
        out.push((v >> (8 * i)) as u8);
    }
}

/// 7z NUMBER in its longest (9 byte) form: one path for every 64-bit value.
pub fn number9(v: u64, out: &mut Vec<u8>) {
    out.push(0xff);
    out.extend_from_slice(&v.to_le_bytes());
}

/// BooleanList, most significant bit first.
pub fn bits(v: &[bool], out: &mut Vec<u8>) {
    let n = out.len();
    out.resize(n + v.len().div_ceil(8), 0);
    for (i, b) in v.iter().enumerate() {
        // branch free: one path for symbolic bits
        out[n + i / 8] |= (*b as u8) << (7 - i % 8);
    }
}

/// AllAreDefined byte, BooleanList when needed.
pub fn all_or_bits(v: &[bool], force_vector: bool, out: &mut Vec<u8>) {
    if !force_vector {
        out.push(1);
    } else {
        out.push(0);
        bits(v, out);
    }
}

#[derive(Clone, Default)]
pub struct RCoder {
    pub id: Vec<u8>,
    pub props: Vec<u8>,
    pub ins: u64,
    pub outs: u64,
}
pub fn coder(id: &[u8], props: &[u8]) -> RCoder {
    RCoder { id: id.to_vec(), props: props.to_vec(), ins: 1, outs: 1 }
}
#[derive(Clone, Default)]
pub struct RFolder {
    pub coders: Vec<RCoder>,
    pub binds: Vec<(u64, u64)>,
    pub packed: Vec<u64>,
    pub sizes: Vec<u64>,
    pub crc: Option<u32>,
    /// sizes of the files in this folder; the last one is implied by the folder's size
    pub subs: Vec<(u64, Option<u32>)>,
}
#[derive(Clone, Default)]
pub struct RFile {
    pub name: Vec<u16>,
    pub stream: bool,
    pub dir: bool,
    pub anti: bool,
    pub ctime: Option<u64>,
    pub atime: Option<u64>,
    pub mtime: Option<u64>,
    pub attr: Option<u32>,
}
pub fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
pub fn file(name: &str) -> RFile {
    RFile { name: utf16(name), stream: true, ..Default::default() }
}

pub fn folder_bytes(f: &RFolder, h: &mut Vec<u8>) {
    number(f.coders.len() as u64, h);
    for c in &f.coders {
        let simple = c.ins == 1 && c.outs == 1;
        h.push(c.id.len() as u8 | if simple { 0 } else { 0x10 } | if c.props.is_empty() { 0 } else { 0x20 });
        h.extend_from_slice(&c.id);
        if !simple {
            number(c.ins, h);
            number(c.outs, h);
        }
        if !c.props.is_empty() {
            number(c.props.len() as u64, h);
            h.extend_from_slice(&c.props);
        }
    }
    for (i, o) in &f.binds {
        number(*i, h);
        number(*o, h);
    }
    if f.packed.len() > 1 {
        for p in &f.packed {
            number(*p, h);
        }
    }
}

/// Streams description: pack info, coders info, substreams info (each one as the format lays it out).
pub fn streams(pack_pos: u64, pack: &[(u64, Option<u32>)], folders: &[RFolder], h: &mut Vec<u8>) {
    h.push(0x06);
    number(pack_pos, h);
    number(pack.len() as u64, h);
    h.push(0x09);
    for p in pack {
        number(p.0, h);
    }
    if pack.iter().any(|p| p.1.is_some()) {
        h.push(0x0A);
        digests(&pack.iter().map(|p| p.1).collect::<Vec<_>>(), h);
    }
    h.push(0);
    h.push(0x07);
    h.push(0x0B);
    number(folders.len() as u64, h);
    h.push(0);
    for f in folders {
        folder_bytes(f, h);
    }
    h.push(0x0C);
    for f in folders {
        for s in &f.sizes {
            number(*s, h);
        }
    }
    if folders.iter().any(|f| f.crc.is_some()) {
        h.push(0x0A);
        digests(&folders.iter().map(|f| f.crc).collect::<Vec<_>>(), h);
    }
    h.push(0);
    substreams(folders, h);
    h.push(0);
}
pub fn digests(d: &[Option<u32>], h: &mut Vec<u8>) {
    if d.iter().all(|x| x.is_some()) {
        h.push(1);
    } else {
        h.push(0);
        bits(&d.iter().map(|x| x.is_some()).collect::<Vec<_>>(), h);
    }
    for x in d.iter().flatten() {
        h.extend_from_slice(&x.to_le_bytes());
    }
}
pub fn substreams(folders: &[RFolder], h: &mut Vec<u8>) {
    h.push(0x08);
    if folders.iter().any(|f| f.subs.len() != 1) {
        h.push(0x0D);
        for f in folders {
            number(f.subs.len() as u64, h);
        }
    }
    if folders.iter().any(|f| f.subs.len() > 1) {
        h.push(0x09);
        for f in folders {
            for s in f.subs.iter().take(f.subs.len().max(1) - 1) {
                number(s.0, h);
            }
        }
    }
    let mut d = vec![];
    for f in folders {
        if f.subs.len() != 1 || f.crc.is_none() {
            d.extend(f.subs.iter().map(|s| s.1));
        }
    }
    if d.iter().any(|x| x.is_some()) || (d.is_empty() && folders.iter().any(|f| f.crc.is_some())) {
        h.push(0x0A);
        digests(&d, h);
    }
    h.push(0);
}
fn prop(id: u8, body: &[u8], h: &mut Vec<u8>) {
    h.push(id);
    number(body.len() as u64, h);
    h.extend_from_slice(body);
}
fn times(id: u8, t: &[Option<u64>], width: usize, h: &mut Vec<u8>) {
    if t.iter().all(|x| x.is_none()) {
        return;
    }
    let mut b = vec![];
    if t.iter().all(|x| x.is_some()) {
        b.push(1);
    } else {
        b.push(0);
        bits(&t.iter().map(|x| x.is_some()).collect::<Vec<_>>(), &mut b);
    }
    b.push(0);
    for x in t.iter().flatten() {
        b.extend_from_slice(&x.to_le_bytes()[..width]);
    }
    prop(id, &b, h);
}
pub fn files(fs: &[RFile], h: &mut Vec<u8>) {
    h.push(0x05);
    number(fs.len() as u64, h);
    if fs.iter().any(|f| !f.stream) {
        let mut b = vec![];
        bits(&fs.iter().map(|f| !f.stream).collect::<Vec<_>>(), &mut b);
        prop(0x0E, &b, h);
        let e: Vec<&RFile> = fs.iter().filter(|f| !f.stream).collect();
        if e.iter().any(|f| !f.dir) {
            let mut b = vec![];
            bits(&e.iter().map(|f| !f.dir).collect::<Vec<_>>(), &mut b);
            prop(0x0F, &b, h);
        }
        if e.iter().any(|f| f.anti) {
            let mut b = vec![];
            bits(&e.iter().map(|f| f.anti).collect::<Vec<_>>(), &mut b);
            prop(0x10, &b, h);
        }
    }
    let mut b = vec![0];
    for f in fs {
        for u in &f.name {
            b.extend_from_slice(&u.to_le_bytes());
        }
        b.extend_from_slice(&[0, 0]);
    }
    prop(0x11, &b, h);
    times(0x12, &fs.iter().map(|f| f.ctime).collect::<Vec<_>>(), 8, h);
    times(0x13, &fs.iter().map(|f| f.atime).collect::<Vec<_>>(), 8, h);
    times(0x14, &fs.iter().map(|f| f.mtime).collect::<Vec<_>>(), 8, h);
    times(0x15, &fs.iter().map(|f| f.attr.map(|a| a as u64)).collect::<Vec<_>>(), 4, h);
    h.push(0);
}
pub fn header(pack_pos: u64, pack: &[(u64, Option<u32>)], folders: &[RFolder], fs: &[RFile]) -> Vec<u8> {
    let mut h = Vec::with_capacity(512);
    h.push(0x01);
    h.push(0x04);
    streams(pack_pos, pack, folders, &mut h);
    files(fs, &mut h);
    h.push(0);
    h
}

/// A chain of one-in one-out coders, outermost decoder first.
pub fn chain(coders: &[RCoder], sizes: &[u64]) -> RFolder {
    let n = coders.len();
    RFolder {
        coders: coders.to_vec(),
        // coder i (i > 0) is fed by coder i-1: the decoder closest to the packed stream is coder n-1
        binds: (1..n as u64).map(|i| (i - 1, i)).collect(),
        packed: vec![n as u64 - 1],
        sizes: sizes.to_vec(),
        crc: None,
        subs: vec![(sizes[0], None)],
    }
}

/// Archive with one file stored through one coder.
pub fn single(id: &[u8], props: &[u8], pack: &[u8], size: u64) -> Vec<u8> {
    let f = chain(&[coder(id, props)], &[size]);
    archive(pack, &header(0, &[(pack.len() as u64, None)], &[f], &[file("a")]))
}

/// In-memory source that hands out at most `max` bytes a call.
#[derive(Clone)]
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub max: usize,
}
impl Src {
    pub fn new(data: Vec<u8>, max: usize) -> Self {
        Src { data, pos: 0, max: if max == 0 { usize::MAX } else { max } }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = self.pos.min(self.data.len());
        let n = buf.len().min(self.data.len() - at).min(self.max);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::Write for Src {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.max);
        let end = self.pos + n;
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[self.pos..end].copy_from_slice(&b[..n]);
        self.pos = end;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(p) => self.data.len() as i128 + p as i128,
            SeekFrom::Current(p) => self.pos as i128 + p as i128,
        };
        if n < 0 || n > usize::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}

/// Reads everything, with buffers of `chunk` bytes (0: 64).
pub fn drain(r: &mut dyn Read, chunk: usize, limit: usize) -> io::Result<Vec<u8>> {
    let mut out = Vec::new();
    let mut buf = vec![0u8; if chunk == 0 { 64 } else { chunk }];
    loop {
        let n = r.read(&mut buf)?;
        if n == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..n]);
        if out.len() > limit {
            return Ok(out);
        }
    }
}

/// Every entry of an archive with its content, in the order the reader visits them.
pub fn extract(arc: Vec<u8>, src_max: usize, chunk: usize, limit: usize, password: &[u16]) -> Result<Vec<(String, Vec<u8>)>, Error> {
    let len = arc.len() as u64;
    let mut r = SevenZReader::new(Src::new(arc, src_max), len, Password::from(password))?;
    let mut out = vec![];
    r.for_each_entries(|e, rd| {
        let d = drain(rd, chunk, limit).map_err(|e| Error::Io(e, "".into()))?;
        out.push((e.name().to_string(), d));
        Ok(true)
    })?;
    Ok(out)
}

pub fn p(i: u64) -> usize {
    rt::param(i) as usize
}

/// Header without streams.
pub fn header_of(fs: &[RFile]) -> Vec<u8> {
    let mut h = vec![1];
    files(fs, &mut h);
    h.push(0);
    h
}
