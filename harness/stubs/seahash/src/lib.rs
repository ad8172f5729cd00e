//! Stand-in for the `seahash` crate: the same interface, an ideal (collision-free) function.
use std::hash::Hasher;

#[derive(Clone, Default)]
pub struct SeaHasher {
    buf: Vec<u8>,
}

impl SeaHasher {
    pub fn new() -> Self {
        Self { buf: Vec::new() }
    }
}

impl Hasher for SeaHasher {
    fn write(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes);
    }
    fn finish(&self) -> u64 {
        phash::hash64(&self.buf)
    }
}
