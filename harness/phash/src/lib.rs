//! An ideal (collision-free) hash: every distinct byte string gets its own identifier.
//! Single threaded by construction (harnesses and the replay driver run one history at a time).
use std::cell::UnsafeCell;

struct Table(UnsafeCell<Vec<Vec<u8>>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(Vec::new()));

/// Forget everything (used between native replays).
pub fn reset() {
    let t: &mut Vec<Vec<u8>> = unsafe { &mut *TABLE.0.get() };
    t.clear()
}

/// Number of distinct byte strings hashed so far.
pub fn issued() -> usize {
    let t: &Vec<Vec<u8>> = unsafe { &*TABLE.0.get() };
    t.len()
}

/// The input that was hashed to `id` (identifiers count from 0).
pub fn input_of(idx: usize) -> &'static [u8] {
    let t: &'static Vec<Vec<u8>> = unsafe { &*TABLE.0.get() };
    &t[idx]
}

/// Index of `input` in the table, entering it if it is new.
pub fn index(input: &[u8]) -> usize {
    let t: &mut Vec<Vec<u8>> = unsafe { &mut *TABLE.0.get() };
    let mut i = 0;
    while i < t.len() {
        // `==` on slices is one comparison to the solver, not one per byte
        if t[i].len() == input.len() && t[i][..] == input[..] {
            return i;
        }
        i += 1;
    }
    t.push(input.to_vec());
    t.len() - 1
}

/// Spread an index over 8 bytes so that already the first byte is unique for the first 255
/// indices, the first two for 65535, and every byte varies.
pub fn spread(idx: usize) -> u64 {
    let x = (idx as u64 + 1).wrapping_mul(0x9d) & 0xff_ffff;
    let y = (idx as u64 + 1).wrapping_mul(0x9E37_79B1).wrapping_add(0x5bd1_e995);
    (x & 0xffff) | (y << 16)
}

pub fn hash64(input: &[u8]) -> u64 {
    spread(index(input))
}
