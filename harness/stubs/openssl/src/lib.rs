//! Stand-in for the part of the `openssl` crate that the tree uses: SHA-256, in Rust.
pub mod sha {
    use sha2::Digest;

    #[derive(Clone)]
    pub struct Sha256(sha2::Sha256);

    impl Default for Sha256 {
        fn default() -> Self {
            Self::new()
        }
    }

    impl Sha256 {
        pub fn new() -> Self {
            Self(sha2::Sha256::new())
        }
        pub fn update(&mut self, buf: &[u8]) {
            self.0.update(buf);
        }
        pub fn finish(self) -> [u8; 32] {
            self.0.finalize().into()
        }
    }

    pub fn sha256(data: &[u8]) -> [u8; 32] {
        sha2::Sha256::digest(data).into()
    }
}
