//! Interface to the symbolic executor. In the IR build these are undefined symbols that the executor
//! interprets; in the native replay build src/bin/replay.rs defines them from a recorded input.
mod ffi {
    extern "C" {
        pub fn vse_bytes(p: *mut u8, n: usize);
        pub fn vse_assume(c: bool);
        pub fn vse_assert(c: bool, id: u32);
        pub fn vse_reach(id: u64);
        pub fn vse_param(i: u64) -> u64;
        pub fn vse_concretize(v: u64) -> u64;
        pub fn vse_merge(on: bool);
        pub fn vse_log(tag: u64, v: u64);
    }
}
pub fn fill(b: &mut [u8]) {
    unsafe { ffi::vse_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn bool() -> bool {
    u8() & 1 == 1
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
/// A value in 0..n, enumerated path by path.
pub fn choose(n: u64) -> usize {
    let v = u8() as u64;
    assume(v < n);
    concretize(v) as usize
}
pub fn assume(c: bool) {
    unsafe { ffi::vse_assume(c) }
}
pub fn assert_at(c: bool, line: u32) {
    unsafe { ffi::vse_assert(c, line) }
}
pub fn reach(i: u64) {
    unsafe { ffi::vse_reach(i) }
}
pub fn param(i: u64) -> u64 {
    unsafe { ffi::vse_param(i) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::vse_concretize(v) }
}
pub fn merge(on: bool) {
    unsafe { ffi::vse_merge(on) }
}
pub fn log(tag: u64, v: u64) {
    unsafe { ffi::vse_log(tag, v) }
}
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::rt::assert_at($c, line!())
    };
}
/// How many of the next random words are symbolic.
pub static mut RANDOM: usize = 0;
/// The random words drawn so far.
pub static mut DRAWN: Vec<u32> = Vec::new();
/// The system's randomness.
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn vse_random_word() -> u32 {
    let w = if RANDOM > 0 {
        RANDOM -= 1;
        u32()
    } else {
        (DRAWN.len() as u32).wrapping_mul(0x9e37_79b1).wrapping_add(0x1234_567)
    };
    DRAWN.push(w);
    w
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    n as isize
}
