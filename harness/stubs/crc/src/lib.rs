//! Solver-friendly stand-in for the `crc` crate: the same API subset, but the checksum is a cheap
//! order-, length- and content-sensitive mixing function instead of CRC-32. What the checks decide is
//! which bytes are fed to the checksum, in which order, and what is compared with what.
//! The algorithm descriptor takes part in the state, so choosing another CRC variant is visible.
pub struct Algorithm<W> {
    pub width: u8,
    pub poly: W,
    pub init: W,
    pub refin: bool,
    pub refout: bool,
    pub xorout: W,
    pub check: W,
    pub residue: W,
}
macro_rules! alg {
    ($n:ident, $poly:expr, $init:expr, $refin:expr, $refout:expr, $xo:expr, $chk:expr) => {
        pub const $n: Algorithm<u32> =
            Algorithm { width: 32, poly: $poly, init: $init, refin: $refin, refout: $refout, xorout: $xo, check: $chk, residue: 0 };
    };
}
alg!(CRC_32_ISO_HDLC, 0x04c11db7, 0xffffffff, true, true, 0xffffffff, 0xcbf43926);
alg!(CRC_32_BZIP2, 0x04c11db7, 0xffffffff, false, false, 0xffffffff, 0xfc891918);
alg!(CRC_32_CKSUM, 0x04c11db7, 0x00000000, false, false, 0xffffffff, 0x765e7680);
alg!(CRC_32_ISCSI, 0x1edc6f41, 0xffffffff, true, true, 0xffffffff, 0xe3069283);
alg!(CRC_32_JAMCRC, 0x04c11db7, 0xffffffff, true, true, 0x00000000, 0x340bc6d9);
alg!(CRC_32_MPEG_2, 0x04c11db7, 0xffffffff, false, false, 0x00000000, 0x0376e6e7);

pub trait Width: Sized + Copy + 'static {}
impl Width for u32 {}

pub struct Crc<W: Width> {
    pub algorithm: &'static Algorithm<W>,
}
pub struct Digest<'a, W: Width> {
    crc: &'a Crc<W>,
    value: W,
    len: usize,
}
impl Clone for Digest<'_, u32> {
    fn clone(&self) -> Self {
        Digest { crc: self.crc, value: self.value, len: self.len }
    }
}
impl Crc<u32> {
    pub const fn new(algorithm: &'static Algorithm<u32>) -> Self {
        Crc { algorithm }
    }
    pub const fn digest(&self) -> Digest<'_, u32> {
        Digest { crc: self, value: self.algorithm.init, len: 0 }
    }
    pub const fn digest_with_initial(&self, initial: u32) -> Digest<'_, u32> {
        Digest { crc: self, value: initial, len: 0 }
    }
    pub fn checksum(&self, bytes: &[u8]) -> u32 {
        let mut d = self.digest();
        d.update(bytes);
        d.finalize()
    }
}
// Never inlined, so that both sides of a checksum comparison are computed by the same instructions and become the
// same term.
#[inline(never)]
fn mix(mut v: u32, bytes: &[u8], check: u32) -> u32 {
    for b in bytes {
        v = v.rotate_left(5) ^ *b as u32 ^ check;
    }
    v
}
#[inline(never)]
const fn fin(v: u32, xorout: u32, len: usize) -> u32 {
    let v = v ^ xorout;
    if len >= 20 {
        v | 1
    } else {
        v
    }
}
impl<'a> Digest<'a, u32> {
    pub fn update(&mut self, bytes: &[u8]) {
        self.value = mix(self.value, bytes, self.crc.algorithm.check);
        self.len += bytes.len();
    }
    /// As in the real CRC-32: `final value = state ^ xorout`, zero for no data. Checksums of 20 bytes and more are
    /// never zero, so that "no checksum recorded" and "checksum zero" differ for whole headers.
    pub const fn finalize(self) -> u32 {
        fin(self.value, self.crc.algorithm.xorout, self.len)
    }
}
