//! An in-memory file system behind the libc calls std makes: symbolic execution and native replay run the same model,
//! and nothing outside of it can be touched.
use std::ffi::{c_char, c_int, c_void};

#[derive(Clone)]
pub struct Node {
    pub path: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
    /// access, modification, creation: seconds and nanoseconds
    pub times: [(i64, u32); 3],
}
pub struct Fs {
    pub nodes: Vec<Node>,
    fds: Vec<Option<(usize, usize)>>,
    dirs: Vec<Box<Dir>>,
    /// bytes a single write takes at most (0: all)
    pub short: usize,
    /// one of the changing (1) or reading (2) calls fails
    pub fault: u8,
    /// and it has failed
    pub hit: bool,
}
#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}
struct Dir {
    node: usize,
    at: usize,
    ent: Dirent,
}
static mut FS: Fs = Fs { nodes: Vec::new(), fds: Vec::new(), dirs: Vec::new(), short: 0, fault: 0, hit: false };
static mut ERRNO: c_int = 0;
const ENOENT: c_int = 2;
const EIO: c_int = 5;
const EBADF: c_int = 9;
const EEXIST: c_int = 17;
const ENOTDIR: c_int = 20;
const EISDIR: c_int = 21;
const EINVAL: c_int = 22;
/// the time at which everything happens
pub const NOW: (i64, u32) = (1_700_000_000, 5);
const FD: c_int = 1000;

#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}
extern "C" {
    fn vse_raw_write(fd: c_int, p: *const c_void, n: usize) -> isize;
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    &mut ERRNO
}
fn err(e: c_int) -> c_int {
    unsafe {
        ERRNO = e;
    }
    -1
}
fn clean(p: &[u8]) -> Vec<u8> {
    // "a//b", "a/./b" and "a/b/" all name "a/b"; ".." is resolved as no links exist
    let mut out: Vec<&[u8]> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    let mut v = vec![];
    for c in out {
        v.push(b'/');
        v.extend_from_slice(c);
    }
    v
}
impl Fs {
    pub fn find(&self, p: &[u8]) -> Option<usize> {
        self.nodes.iter().position(|n| n.path == p)
    }
    pub fn get(&self, p: &str) -> Option<&Node> {
        self.find(p.as_bytes()).map(|i| &self.nodes[i])
    }
    pub fn add(&mut self, path: &str, dir: bool, data: Vec<u8>) -> &mut Node {
        self.nodes.push(Node { path: path.as_bytes().to_vec(), dir, data, times: [(0, 0); 3] });
        self.nodes.last_mut().unwrap()
    }
    fn parent_ok(&self, p: &[u8]) -> Result<(), c_int> {
        let i = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
        if i == 0 {
            return Ok(());
        }
        match self.find(&p[..i]) {
            None => Err(ENOENT),
            Some(k) if self.nodes[k].dir => Ok(()),
            _ => Err(ENOTDIR),
        }
    }
    fn fails(&mut self, kind: u8) -> bool {
        if self.fault & kind != 0 && !self.hit && crate::rt::choose(2) == 1 {
            self.hit = true;
        } else {
            return false;
        }
        true
    }
    fn tick(&mut self) -> bool {
        self.fails(1)
    }
    fn rtick(&mut self) -> bool {
        self.fails(2)
    }
}
unsafe fn path(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 {
        v.push(*p.add(i) as u8);
        i += 1;
    }
    clean(&v)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let p = path(p);
    let f = fs();
    let (acc, creat, excl, trunc) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0);
    if (creat || trunc) && f.tick() {
        return err(EIO);
    }
    if acc == 0 && f.rtick() {
        return err(EIO);
    }
    let i = match f.find(&p) {
        Some(_) if creat && excl => return err(EEXIST),
        Some(i) if f.nodes[i].dir && acc != 0 => return err(EISDIR),
        Some(i) => i,
        None if !creat => return err(ENOENT),
        None => {
            if let Err(e) = f.parent_ok(&p) {
                return err(e);
            }
            f.nodes.push(Node { path: p, dir: false, data: vec![], times: [(0, 0); 3] });
            f.nodes.len() - 1
        }
    };
    if trunc {
        f.nodes[i].data.clear();
    }
    f.fds.push(Some((i, 0)));
    FD + f.fds.len() as c_int - 1
}
fn fd(fd: c_int) -> Option<&'static mut (usize, usize)> {
    fs().fds.get_mut((fd - FD) as usize).and_then(|x| x.as_mut())
}
#[no_mangle]
pub unsafe extern "C" fn close(n: c_int) -> c_int {
    if n < FD {
        return 0;
    }
    match fs().fds.get_mut((n - FD) as usize) {
        Some(x) if x.is_some() => {
            *x = None;
            0
        }
        _ => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(n: c_int, p: *mut c_void, k: usize) -> isize {
    let Some(d) = fd(n) else { return err(EBADF) as isize };
    if fs().rtick() {
        return err(EIO) as isize;
    }
    if fs().nodes[d.0].dir {
        return err(EISDIR) as isize;
    }
    let data = &fs().nodes[d.0].data;
    let at = d.1.min(data.len());
    let k = k.min(data.len() - at);
    std::ptr::copy_nonoverlapping(data.as_ptr().add(at), p as *mut u8, k);
    d.1 += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(n: c_int, p: *const c_void, k: usize) -> isize {
    if n < FD {
        return vse_raw_write(n, p, k);
    }
    let Some(d) = fd(n) else { return err(EBADF) as isize };
    if fs().tick() {
        return err(EIO) as isize;
    }
    let k = if fs().short != 0 { k.min(fs().short) } else { k };
    let data = &mut fs().nodes[d.0].data;
    if data.len() < d.1 + k {
        data.resize(d.1 + k, 0);
    }
    std::ptr::copy_nonoverlapping(p as *const u8, data.as_mut_ptr().add(d.1), k);
    fs().nodes[d.0].times[1] = NOW;
    d.1 += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: c_int, off: i64, whence: c_int) -> i64 {
    let Some(d) = fd(n) else { return err(EBADF) as i64 };
    let base = match whence {
        0 => 0,
        1 => d.1 as i64,
        _ => fs().nodes[d.0].data.len() as i64,
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            d.1 = p as usize;
            p
        }
        _ => err(EINVAL) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, _mode: u32) -> c_int {
    let p = path(p);
    let f = fs();
    if f.tick() {
        return err(EIO);
    }
    if f.find(&p).is_some() || p.is_empty() {
        return err(EEXIST);
    }
    if let Err(e) = f.parent_ok(&p) {
        return err(e);
    }
    f.nodes.push(Node { path: p, dir: true, data: vec![], times: [(0, 0); 3] });
    0
}
#[repr(C)]
#[derive(Default)]
struct Ts {
    sec: i64,
    nsec: u32,
    pad: i32,
}
#[repr(C)]
#[derive(Default)]
pub struct Statx {
    mask: u32,
    blksize: u32,
    attributes: u64,
    nlink: u32,
    uid: u32,
    gid: u32,
    mode: u16,
    pad0: u16,
    ino: u64,
    size: u64,
    blocks: u64,
    amask: u64,
    atime: Ts,
    btime: Ts,
    ctime: Ts,
    mtime: Ts,
    rdev: [u32; 4],
    mnt: u64,
    rest: [u64; 13],
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, _flags: c_int, _mask: u32, out: *mut Statx) -> c_int {
    let i = if p.is_null() {
        return err(14); // EFAULT, as std probes for it
    } else if *p == 0 {
        match fd(dfd) {
            Some(d) => d.0,
            None => return err(EBADF),
        }
    } else {
        match fs().find(&path(p)) {
            Some(i) => i,
            None => return err(ENOENT),
        }
    };
    let n = &fs().nodes[i];
    let ts = |t: (i64, u32)| Ts { sec: t.0, nsec: t.1, pad: 0 };
    *out = Statx {
        mask: 0xfff,
        mode: if n.dir { 0o040755 } else { 0o100644 },
        size: n.data.len() as u64,
        nlink: 1,
        ino: i as u64 + 1,
        atime: ts(n.times[0]),
        mtime: ts(n.times[1]),
        ctime: ts(n.times[1]),
        btime: ts(n.times[2]),
        ..Default::default()
    };
    0
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let Some(i) = fs().find(&path(p)) else {
        err(ENOENT);
        return std::ptr::null_mut();
    };
    if !fs().nodes[i].dir {
        err(ENOTDIR);
        return std::ptr::null_mut();
    }
    if fs().rtick() {
        err(EIO);
        return std::ptr::null_mut();
    }
    let d = Box::new(Dir { node: i, at: 0, ent: Dirent { ino: 0, off: 0, reclen: 280, kind: 0, name: [0; 256] } });
    fs().dirs.push(d);
    &mut **fs().dirs.last_mut().unwrap() as *mut Dir as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let d = &mut *(d as *mut Dir);
    let base = fs().nodes[d.node].path.clone();
    if fs().rtick() {
        err(EIO);
        return std::ptr::null_mut();
    }
    while d.at < fs().nodes.len() {
        let n = &fs().nodes[d.at];
        d.at += 1;
        if n.path.len() > base.len() + 1 && n.path[..base.len()] == base[..] && n.path[base.len()] == b'/' && !n.path[base.len() + 1..].contains(&b'/') {
            let name = &n.path[base.len() + 1..];
            d.ent.ino = d.at as u64;
            d.ent.kind = if n.dir { 4 } else { 8 };
            d.ent.name[..name.len()].copy_from_slice(name);
            d.ent.name[name.len()] = 0;
            return &mut d.ent as *mut Dirent as *mut c_void;
        }
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_: *mut c_void) -> c_int {
    FD - 1
}
#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn futimens(n: c_int, t: *const TimeSpec) -> c_int {
    let Some(d) = fd(n) else { return err(EBADF) };
    for i in 0..2 {
        let t = &*t.add(i);
        if t.nsec != 0x3ffffffe {
            fs().nodes[d.0].times[i] = (t.sec, t.nsec as u32);
        }
    }
    0
}
/// Everything below a directory, in the order of creation.
pub fn below(dir: &str) -> Vec<(String, bool, Vec<u8>)> {
    let d = dir.as_bytes();
    fs().nodes
        .iter()
        .filter(|n| n.path.len() > d.len() && n.path[..d.len()] == *d && n.path[d.len()] == b'/')
        .map(|n| (String::from_utf8_lossy(&n.path).into_owned(), n.dir, n.data.clone()))
        .collect()
}
