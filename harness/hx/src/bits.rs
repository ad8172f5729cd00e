//! The bit-level building blocks, against definitions written bit by bit.
use crate::sym::*;
use crate::world::{arr, bit, key_at, HashMap};
use starling::utils::tree_ref::TreeRef;
use starling::utils::tree_utils::*;
use starling::Array;

/// First bit at which two keys differ; `N * 8` if they do not.
fn first_diff<const N: usize>(a: &[u8; N], b: &[u8; N]) -> usize {
    for i in 0..N {
        let x = a[i] ^ b[i];
        if x != 0 {
            let mut j = 0;
            while x << j & 0x80 == 0 {
                j += 1;
            }
            return i * 8 + j;
        }
    }
    N * 8
}

/// A sorted list, repetitions allowed, unconstrained at the given positions (at all if there are none).
fn sorted<const N: usize>(n: usize, pos: &[usize]) -> Vec<[u8; N]> {
    let mut keys: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let k = any::<N>(pos);
        if i > 0 {
            assume(keys[i - 1][..] <= k[..]);
        }
        keys.push(k);
    }
    keys
}

fn any<const N: usize>(pos: &[usize]) -> [u8; N] {
    if pos.is_empty() {
        bytes()
    } else {
        key_at::<N>(pos)
    }
}

pub fn log() {
    let x = byte();
    assume(x != 0);
    let l = fast_log_2(x);
    check(l < 8 && x >> l == 1, "fast_log_2 is not the position of the highest set bit");
}

/// Every key, every position, also beyond the key.
pub fn choose_bit<const N: usize>() {
    let k: [u8; N] = bytes();
    let i = u64_any() as usize;
    match choose_zero(arr(k), i) {
        Ok(z) => {
            cover("within");
            check(i < N * 8, "a position beyond the key is accepted");
            if i < N * 8 {
                check(z == (k[i / 8] << (i % 8) & 0x80 == 0), "choose_zero does not look at that bit");
            }
        }
        Err(_) => {
            cover("beyond");
            check(i >= N * 8, "a position within the key is an error");
        }
    }
}

/// Sorted lists of `n` keys with a common prefix of `bit` bits.
pub fn split<const N: usize>(n: usize) {
    let n = choose(n + 1);
    let mut keys: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let k = bytes::<N>();
        if i > 0 {
            // repeated keys may be asked for
            assume(keys[i - 1][..] <= k[..]);
        }
        keys.push(k);
    }
    // every position for short keys, the corners of long ones
    let s = if N <= 4 { choose(N * 8 + 1) } else { [0, 1, 7, 8, 9, N * 4, N * 8 - 9, N * 8 - 8, N * 8 - 1, N * 8][choose(10)] };
    for i in 1..n {
        let d = keys[0][..s / 8] == keys[i][..s / 8];
        assume(d);
        if s % 8 > 0 {
            assume((keys[0][s / 8] ^ keys[i][s / 8]) >> (8 - s % 8) == 0);
        }
    }
    let list: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
    match split_pairs(&list, s) {
        Ok((z, o)) => {
            check(n == 0 || s < N * 8, "a position beyond the key is accepted");
            check(z.len() + o.len() == n, "split_pairs loses or repeats keys");
            for i in 0..n {
                if s < N * 8 {
                    let zero = bit(&keys[i], s) == 0;
                    check(zero == (i < z.len()), "split_pairs puts a key on the wrong side");
                    let got = if i < z.len() { z[i] } else { o[i - z.len()] };
                    check(got == list[i], "split_pairs changes a key");
                }
            }
        }
        Err(_) => {
            cover("beyond");
            check(n > 0 && s >= N * 8, "split_pairs fails on a sorted list");
        }
    }
}

/// The first bit on which a sorted list of keys and a branch key do not all agree.
pub fn min_split<const N: usize>(n: usize, pos: &[usize]) {
    let keys = sorted::<N>(n, pos);
    let b: [u8; N] = any(pos);
    let list: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
    let none: [Array<N>; 0] = [];
    check(calc_min_split_index(&none, &arr(b)).is_err(), "calc_min_split_index of no keys is not an error");
    match calc_min_split_index(&list, &arr(b)) {
        Ok(s) => {
            let mut want = N * 8;
            for k in &keys {
                want = want.min(first_diff(k, &b));
                want = want.min(first_diff(k, &keys[0]));
            }
            if want < N * 8 {
                check(s == want, "calc_min_split_index is not the first differing bit");
            } else {
                cover("all the same");
                check(s < N * 8, "calc_min_split_index lies beyond the key");
            }
        }
        Err(_) => fail("calc_min_split_index fails"),
    }
}

/// The keys below a branch.
pub fn below<const N: usize>(n: usize, pos: &[usize]) {
    let keys = sorted::<N>(n, pos);
    let b: [u8; N] = any(pos);
    let s = if N <= 2 { choose(N * 8) } else { [0, 1, 7, 8, 9, 15, 16, 17, N * 8 - 8, N * 8 - 7, N * 8 - 1][choose(11)] };
    let list: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
    let m = match calc_min_split_index(&list, &arr(b)) {
        Ok(m) => m,
        Err(_) => {
            fail("calc_min_split_index fails");
            return;
        }
    };
    match check_descendants(&list, s, &arr(b), m) {
        Ok(d) => {
            let mut want = 0;
            for (i, k) in keys.iter().enumerate() {
                if first_diff(k, &b) >= s {
                    check(want < d.len() && d[want] == list[i], "a key below the branch is left out");
                    want += 1;
                }
            }
            check(d.len() == want, "a key that is not below the branch is included");
        }
        Err(_) => fail("check_descendants fails"),
    }
}

/// The splits between neighbours of a sorted list.
pub fn queue<const N: usize>(n: usize) {
    let keys: Vec<[u8; N]> = (0..n).map(|_| bytes()).collect();
    let mut dup = false;
    for i in 1..n {
        assume(keys[i - 1][..] <= keys[i][..]);
        if keys[i - 1] == keys[i] {
            dup = true;
        }
    }
    let mut refs: Vec<TreeRef<N>> = keys.iter().enumerate().map(|(i, k)| TreeRef::new(arr(*k), arr([i as u8; N]), 1, 1)).collect();
    let mut q: HashMap<usize, Vec<(usize, usize, usize)>> = HashMap::new();
    match generate_tree_ref_queue(&mut refs, &mut q) {
        Ok(splits) => {
            check(!dup, "equal keys are not noticed");
            let mut total = 0;
            for i in 1..n {
                let d = first_diff(&keys[i - 1], &keys[i]);
                check(splits.contains(&d), "a split is missing");
                match q.get(&d) {
                    Some(v) => check(v.contains(&(d, i - 1, i)), "a pair of neighbours is missing"),
                    None => fail("a split has no entries"),
                }
            }
            for s in &splits {
                match q.get(s) {
                    Some(v) => total += v.len(),
                    None => fail("a split has no entries"),
                }
            }
            check(total == n - 1 && q.len() == splits.len(), "there are more pairs than neighbours");
        }
        Err(_) => {
            cover("equal keys");
            check(dup, "different keys are taken for equal");
        }
    }
}

pub fn leaf_map<const N: usize>(n: usize) {
    let keys: Vec<[u8; N]> = (0..n).map(|_| bytes()).collect();
    let list: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
    let m: HashMap<Array<N>, Option<u8>> = generate_leaf_map(&list);
    let mut distinct = 0;
    for i in 0..n {
        if !keys[..i].contains(&keys[i]) {
            distinct += 1;
        }
        check(matches!(m.get(&list[i]), Some(None)), "a key is missing from the leaf map, or has a value");
    }
    check(m.len() == distinct, "the leaf map has other keys");
}

/// References are ordered by key alone.
pub fn ref_order<const N: usize>() {
    let (a, b): ([u8; N], [u8; N]) = (bytes(), bytes());
    let (x, y) = (TreeRef::new(arr(a), arr(bytes()), u64_any(), 1), TreeRef::new(arr(b), arr(bytes()), u64_any(), 1));
    let want = a[..].cmp(&b[..]);
    check(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want), "tree references are not ordered by their keys");
}
