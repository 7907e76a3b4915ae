//! `rand` whose thread generator is deterministic inside an exploration.
pub use real::*;

#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
impl real::RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        match mcrt::rng_u64() {
            Some(v) => v,
            None => real::RngCore::next_u64(&mut real::thread_rng()),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), real::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl real::CryptoRng for ThreadRng {}

pub fn random<T>() -> T
where
    real::distributions::Standard: real::distributions::Distribution<T>,
{
    use real::Rng;
    thread_rng().gen()
}

/// The system's generator.
#[derive(Clone, Copy, Debug, Default)]
pub struct OsRng;
use real::RngCore as _;
impl real::RngCore for OsRng {
    fn next_u32(&mut self) -> u32 {
        ThreadRng.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        ThreadRng.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        ThreadRng.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), real::Error> {
        ThreadRng.try_fill_bytes(dest)
    }
}
impl real::CryptoRng for OsRng {}

pub mod rngs {
    pub use crate::{OsRng, ThreadRng};
    pub use real::rngs::*;
}
pub mod prelude {
    pub use crate::{random, thread_rng, ThreadRng};
    pub use real::prelude::*;
}
