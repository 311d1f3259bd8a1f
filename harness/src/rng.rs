//! Deterministic generators handed to the crate under test.
#![cfg(feature = "f_rand")]
use crate::gen::R;
use rand::{Error, RngCore};

pub struct Seq {
    r: R,
    pub draws: usize,
}
impl Seq {
    pub fn new(seed: u64) -> Seq {
        Seq { r: R::new(seed), draws: 0 }
    }
}
impl RngCore for Seq {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        self.r.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Yields one constant; panics after a number of draws if asked to.
pub struct Const {
    pub v: u64,
    pub draws: usize,
    pub panic_after: Option<usize>,
}
impl RngCore for Const {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.panic_after == Some(self.draws) {
            panic!("injected: generator fails")
        }
        self.draws += 1;
        self.v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
