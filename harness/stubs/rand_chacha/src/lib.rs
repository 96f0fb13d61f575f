//! Stands in for the ChaCha generators of `rand`: the words come from the harness.
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
extern "C" {
    fn vse_random_word() -> u32;
}
#[derive(Clone, Copy)]
pub struct Words([u32; 16]);
impl Default for Words {
    fn default() -> Self {
        Words([0; 16])
    }
}
impl AsRef<[u32]> for Words {
    fn as_ref(&self) -> &[u32] {
        &self.0
    }
}
impl AsMut<[u32]> for Words {
    fn as_mut(&mut self) -> &mut [u32] {
        &mut self.0
    }
}
macro_rules! gen {
    ($c:ident $r:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $c;
        impl BlockRngCore for $c {
            type Item = u32;
            type Results = Words;
            fn generate(&mut self, r: &mut Words) {
                for w in r.0.iter_mut() {
                    *w = unsafe { vse_random_word() };
                }
            }
        }
        impl SeedableRng for $c {
            type Seed = [u8; 32];
            fn from_seed(_: [u8; 32]) -> Self {
                $c
            }
        }
        impl CryptoRng for $c {}
        #[derive(Clone, Debug)]
        pub struct $r(BlockRng<$c>);
        impl PartialEq for $r {
            fn eq(&self, _: &$r) -> bool {
                true
            }
        }
        impl Eq for $r {}
        impl SeedableRng for $r {
            type Seed = [u8; 32];
            fn from_seed(_: [u8; 32]) -> Self {
                $r(BlockRng::new($c))
            }
        }
        impl RngCore for $r {
            fn next_u32(&mut self) -> u32 {
                self.0.next_u32()
            }
            fn next_u64(&mut self) -> u64 {
                self.0.next_u64()
            }
            fn fill_bytes(&mut self, b: &mut [u8]) {
                self.0.fill_bytes(b)
            }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
                self.0.try_fill_bytes(b)
            }
        }
        impl CryptoRng for $r {}
    };
}
gen!(ChaCha8Core ChaCha8Rng);
gen!(ChaCha12Core ChaCha12Rng);
gen!(ChaCha20Core ChaCha20Rng);
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
