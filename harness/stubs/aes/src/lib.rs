//! Solver-friendly stand-in for the `aes` crate: a keyed, invertible 16-byte block permutation with the
//! same traits. CBC (the real `cbc` crate) runs on top of it.
pub use cipher;
use cipher::{
    consts::{U16, U32},
    AlgorithmName, BlockCipher, Key, KeyInit, KeySizeUser,
};
#[derive(Clone)]
pub struct Aes256 {
    key: [u8; 32],
}
impl BlockCipher for Aes256 {}
impl KeySizeUser for Aes256 {
    type KeySize = U32;
}
impl KeyInit for Aes256 {
    fn new(key: &Key<Self>) -> Self {
        let mut k = [0u8; 32];
        k.copy_from_slice(key.as_slice());
        Aes256 { key: k }
    }
}
impl AlgorithmName for Aes256 {
    fn write_alg_name(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Aes256")
    }
}
cipher::impl_simple_block_encdec!(
    Aes256, U16, cipher, block,
    encrypt: {
        let mut t = [0u8; 16];
        for i in 0..16 {
            t[i] = block.get_in()[(i + 5) % 16].rotate_left(3) ^ cipher.key[i] ^ cipher.key[31 - i] ^ (i as u8);
        }
        block.get_out().copy_from_slice(&t);
    }
    decrypt: {
        let mut t = [0u8; 16];
        for i in 0..16 {
            t[(i + 5) % 16] = (block.get_in()[i] ^ cipher.key[i] ^ cipher.key[31 - i] ^ (i as u8)).rotate_right(3);
        }
        block.get_out().copy_from_slice(&t);
    }
);
