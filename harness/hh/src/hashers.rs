use crate::sym::*;
use starling::traits::Hasher;
use starling::tree_hasher::TreeHasher;

/// How the function of this configuration is meant to be used, written against the function's own crate.
pub struct Fun;

#[cfg(not(feature = "f_digest"))]
#[allow(unused)]
fn pad(mut v: Vec<u8>, n: usize) -> Vec<u8> {
    v.resize(n, 0);
    v
}

/// Functions of std's `Hasher` interface: 8 bytes, least significant first.
#[allow(unused)]
fn std_hash<H: std::hash::Hasher>(mut h: H, parts: &[&[u8]], n: usize) -> Vec<u8> {
    for p in parts {
        h.write(p);
    }
    let x = h.finish();
    (0..n).map(|i| if i < 8 { (x >> (8 * i)) as u8 } else { 0 }).collect()
}

#[cfg(not(any(
    feature = "f_fxhash",
    feature = "f_seahash",
    feature = "f_keccak",
    feature = "f_sha3",
    feature = "f_sha2",
    feature = "f_blake2rfc",
    feature = "f_digest"
)))]
impl Fun {
    pub const MAX: usize = 65;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        std_hash(std::collections::hash_map::DefaultHasher::new(), &[&parts.concat()], n)
    }
}

#[cfg(feature = "f_fxhash")]
impl Fun {
    pub const MAX: usize = 65;
    /// this function's result depends on how its input is divided
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        std_hash(fxhash::FxHasher::default(), parts, n)
    }
}

#[cfg(feature = "f_seahash")]
impl Fun {
    pub const MAX: usize = 65;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        std_hash(seahash::SeaHasher::new(), &[&parts.concat()], n)
    }
}

#[cfg(any(feature = "f_keccak", feature = "f_sha3"))]
impl Fun {
    pub const MAX: usize = 65;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        use tiny_keccak::Hasher;
        #[cfg(feature = "f_keccak")]
        let mut h = tiny_keccak::Keccak::v256();
        #[cfg(feature = "f_sha3")]
        let mut h = tiny_keccak::Sha3::v256();
        h.update(&parts.concat());
        let mut out = vec![0; n];
        h.finalize(&mut out);
        out
    }
}

#[cfg(feature = "f_sha2")]
impl Fun {
    pub const MAX: usize = 65;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        pad(openssl::sha::sha256(&parts.concat()).to_vec(), n)
    }
}

#[cfg(feature = "f_blake2rfc")]
impl Fun {
    /// the function knows no longer digest
    pub const MAX: usize = 64;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        blake2_rfc::blake2b::blake2b(n, &[], &parts.concat()).as_bytes().to_vec()
    }
}

#[cfg(feature = "f_digest")]
mod which {
    #[cfg(feature = "f_blake2b")]
    pub type D = blake2::Blake2b512;
    #[cfg(feature = "f_groestl")]
    pub type D = groestl::Groestl256;
    #[cfg(feature = "f_md2")]
    pub type D = md2::Md2;
    #[cfg(feature = "f_md4")]
    pub type D = md4::Md4;
    #[cfg(feature = "f_md5")]
    pub type D = md5::Md5;
    #[cfg(feature = "f_ripemd160")]
    pub type D = ripemd::Ripemd160;
    #[cfg(feature = "f_ripemd320")]
    pub type D = ripemd::Ripemd320;
    #[cfg(feature = "f_sha1")]
    pub type D = sha1::Sha1;
    #[cfg(feature = "f_rust_sha2")]
    pub type D = sha2::Sha256;
    #[cfg(feature = "f_rust_sha3")]
    pub type D = sha3::Sha3_256;
    #[cfg(feature = "f_rust_keccak")]
    pub type D = sha3::Keccak256;
    #[cfg(feature = "f_whirlpool")]
    pub type D = whirlpool::Whirlpool;
}

#[cfg(feature = "f_digest")]
impl Fun {
    pub const MAX: usize = 65;
    fn of(parts: &[&[u8]], n: usize) -> Vec<u8> {
        use digest::Digest;
        let mut v = which::D::digest(parts.concat()).to_vec();
        v.resize(n, 0);
        v
    }
}

type Loc<const N: usize> = starling::Array<N>;

fn loc<const N: usize>(parts: &[&[u8]]) -> Loc<N> {
    let mut h = <TreeHasher as Hasher<N>>::new(N);
    for p in parts {
        <TreeHasher as Hasher<N>>::update(&mut h, p);
    }
    <TreeHasher as Hasher<N>>::finalize(h)
}

fn same<const N: usize>(l: &Loc<N>, want: &[u8], msg: &str) {
    let l: &[u8] = l.as_ref();
    check(l.len() == N && want.len() == N, "a location has another length");
    check(l == want, msg);
}

const DIGEST: &str = "a location is not the digest of the bytes";

/// Every input of up to `max` bytes, handed over in up to three pieces.
pub fn cut<const N: usize>(max: usize) {
    if N > Fun::MAX {
        return;
    }
    let n = choose(max + 1);
    let data = vec(n);
    let i = choose(n + 1);
    let j = i + choose(n + 1 - i);
    let parts = [&data[..i], &data[i..j], &data[j..]];
    let l = loc::<N>(&parts);
    observe(&l[..]);
    same::<N>(&l, &Fun::of(&parts, N), DIGEST);
    // again, while another is under way
    let mut other = <TreeHasher as Hasher<N>>::new(N);
    <TreeHasher as Hasher<N>>::update(&mut other, &data[j..]);
    check(loc::<N>(&parts) == l, "hashing the same bytes again gives another location");
    <TreeHasher as Hasher<N>>::update(&mut other, &data[..i]);
    let o = <TreeHasher as Hasher<N>>::finalize(other);
    same::<N>(&o, &Fun::of(&[&data[j..], &data[..i]], N), "two hashers disturb each other");
}

/// Inputs of given lengths (around the block sizes of the functions), three bytes free, cut in two anywhere around the blocks.
pub fn long<const N: usize>(lens: &[usize]) {
    let n = lens[choose(lens.len())];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    for i in [0, n / 2, n.saturating_sub(1)] {
        if i < n {
            data[i] = byte();
        }
    }
    let cuts = [0, 1, 8, 63, 64, 65, 127, 128, 135, 136, n];
    let i = cuts[choose(cuts.len())];
    assume(i <= n);
    let parts = [&data[..i], &data[i..]];
    let l = loc::<N>(&parts);
    observe(&l[..]);
    same::<N>(&l, &Fun::of(&parts, N), DIGEST);
}

/// Every location size up to 65, one input of 3 free bytes.
pub fn sizes(max: usize) {
    let data = vec(3);
    macro_rules! each {
        ($($n:literal)*) => {
            match 1 + choose(max) {
                $( $n => {
                    let l = loc::<$n>(&[&data]);
                    observe(&l[..]);
                    same::<$n>(&l, &Fun::of(&[&data], $n), DIGEST);
                } )*
                _ => fail("no such size"),
            }
        };
    }
    each!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49
        50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65);
}
