//! Interface to the symbolic executor. Under symbolic execution the `se_*` symbols are interpreted
//! by the engine; in the native replay driver they read a recorded input.
extern "C-unwind" {
    fn se_byte() -> u8;
    fn se_assume(c: u32);
    fn se_fail(p: *const u8, n: usize);
    fn se_check(c: u32, p: *const u8, n: usize);
    fn se_cover(p: *const u8, n: usize);
    fn se_observe(p: *const u8, n: usize);
    fn se_concretize(v: u64) -> u64;
    fn se_tag(p: *const u8, n: usize);
}

/// One unconstrained byte.
pub fn byte() -> u8 {
    unsafe { se_byte() }
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for x in a.iter_mut() {
        *x = byte();
    }
    a
}

pub fn vec(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    v
}

pub fn u64_any() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}

/// Discard every execution in which `c` is false.
pub fn assume(c: bool) {
    unsafe { se_assume(c as u32) }
}

/// The assertion: the solver looks for any input reaching this point with `c` false.
pub fn check(c: bool, msg: &str) {
    unsafe { se_check(c as u32, msg.as_ptr(), msg.len()) }
}

pub fn fail(msg: &str) {
    unsafe { se_fail(msg.as_ptr(), msg.len()) }
}

pub fn cover(msg: &str) {
    unsafe { se_cover(msg.as_ptr(), msg.len()) }
}

pub fn observe(b: &[u8]) {
    unsafe { se_observe(b.as_ptr(), b.len()) }
}

pub fn tag(msg: &str) {
    unsafe { se_tag(msg.as_ptr(), msg.len()) }
}

/// Split the execution into one per value of `v`.
pub fn concretize(v: u64) -> u64 {
    unsafe { se_concretize(v) }
}

/// A choice among `n` alternatives; every one is explored.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = byte();
    assume((b as usize) < n);
    concretize(u64::from(b)) as usize
}
