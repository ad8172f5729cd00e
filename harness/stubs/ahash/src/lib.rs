//! Stand-in for ahash: every key hashes alike, so that equality alone decides what a map finds.
#![no_std]
use core::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, Default)]
pub struct AHasher;

impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct RandomState;

impl RandomState {
    pub const fn new() -> Self {
        Self
    }
}

impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher
    }
}
