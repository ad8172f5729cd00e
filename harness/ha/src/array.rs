//! `Array<N>` against `[u8; N]`.
use crate::sym::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

type A<const N: usize> = starling::Array<N>;

/// Every byte given to the hasher, in order.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
}
fn hashed<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
fn sign(o: Ordering) -> u8 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

pub fn all<const N: usize>() {
    let p: [u8; N] = bytes();
    let q: [u8; N] = bytes();
    let (a, b): (A<N>, A<N>) = (p.into(), A::<N>::from(q));
    // there and back
    let back: [u8; N] = a.into();
    check(back == p, "converting there and back changes the bytes");
    let zero: [u8; N] = A::<N>::default().into();
    check(zero == [0; N], "the default is not all zeros");
    let c = a;
    check(c == a && c.clone() == a, "a copy differs");
    match choose(10) {
        0 => {
            check((a == b) == (p == q), "== differs");
            check((a != b) == (p != q), "!= differs");
        }
        1 => {
            check(sign(a.cmp(&b)) == sign(p.cmp(&q)), "cmp differs");
            check(a.partial_cmp(&b).map(sign) == p.partial_cmp(&q).map(sign), "partial_cmp differs");
        }
        2 => {
            check((a < b) == (p < q), "< differs");
            check((a <= b) == (p <= q), "<= differs");
            check((a > b) == (p > q), "> differs");
            check((a >= b) == (p >= q), ">= differs");
        }
        3 => {
            let m: [u8; N] = a.max(b).into();
            check(m == p.max(q), "max differs");
            let m: [u8; N] = a.min(b).into();
            check(m == p.min(q), "min differs");
        }
        4 => {
            check(hashed(&a) == hashed(&p), "the hash differs");
        }
        5 => {
            // iteration
            check(a.iter().len() == N, "iter has another length");
            let mut i = 0;
            for x in a.iter() {
                check(*x == p[i], "iter differs");
                i += 1;
            }
            check(i == N, "iter ends early");
            let mut i = 0;
            for x in a {
                check(x == p[i], "into_iter differs");
                i += 1;
            }
            check(i == N, "into_iter ends early");
            let mut i = N;
            for x in a.iter().rev() {
                i -= 1;
                check(*x == p[i], "reversed iter differs");
            }
            for (x, y) in a.into_iter().rev().zip(p.into_iter().rev()) {
                check(x == y, "reversed into_iter differs");
            }
        }
        6 => {
            // views
            check(a.as_ref() == &p[..], "as_ref differs");
            check(a.len() == N && a.is_empty() == (N == 0), "len differs");
            check(*a == p, "deref differs");
            check(a.first() == p.first() && a.last() == p.last(), "the ends differ");
            check(a.get(N).is_none(), "there is something beyond the end");
            check(a.as_slice() == p.as_slice(), "as_slice differs");
            check(a.starts_with(&p[..N / 2]) && a.ends_with(&p[N / 2..]), "starts_with or ends_with differs");
        }
        7 => {
            // every index and range
            let i = choose(N + 1);
            let j = i + choose(N + 1 - i);
            check(a[i..j] == p[i..j], "a range differs");
            check(a[i..] == p[i..], "a range from differs");
            check(a[..j] == p[..j], "a range to differs");
            check(a[..] == p[..], "the full range differs");
            if j < N {
                check(a[j] == p[j], "an index differs");
                check(a[i..=j] == p[i..=j], "an inclusive range differs");
                check(a[..=j] == p[..=j], "an inclusive range to differs");
                check(a.get(j) == p.get(j), "get differs");
            }
        }
        8 => {
            // writing
            let (mut c, mut r) = (a, p);
            let i = choose(N + 1);
            let v = byte();
            if i < N {
                c[i] = v;
                r[i] = v;
                check(*c == r, "writing an index differs");
            }
            let j = i + choose(N + 1 - i);
            c[i..j].copy_from_slice(&q[i..j]);
            r[i..j].copy_from_slice(&q[i..j]);
            check(*c == r, "writing a range differs");
            c.as_mut().reverse();
            r.reverse();
            check(*c == r, "writing through as_mut differs");
            c.fill(v);
            check(*c == [v; N], "fill differs");
            check(*a == p, "writing to a copy changes the original");
        }
        _ => {
            // as keys of maps
            let mut m: HashMap<A<N>, u8> = HashMap::new();
            let mut r: HashMap<[u8; N], u8> = HashMap::new();
            m.insert(a, 1);
            r.insert(p, 1);
            check(m.get(&b).copied() == r.get(&q).copied(), "a hash map differs");
            check(m.insert(b, 2) == r.insert(q, 2), "a hash map differs");
            check(m.len() == r.len() && m.get(&a) == r.get(&p), "a hash map differs");
            let mut m: BTreeMap<A<N>, u8> = BTreeMap::new();
            let mut r: BTreeMap<[u8; N], u8> = BTreeMap::new();
            m.insert(a, 1);
            r.insert(p, 1);
            check(m.insert(b, 2) == r.insert(q, 2), "a tree map differs");
            for ((k, v), (l, w)) in m.iter().zip(r.iter()) {
                check(**k == *l && v == w, "a tree map differs");
            }
        }
    }
}

/// Sorting and searching.
pub fn sort<const N: usize>(n: usize) {
    let mut r: Vec<[u8; N]> = Vec::new();
    for _ in 0..n {
        r.push(bytes());
    }
    let mut a: Vec<A<N>> = r.iter().map(|x| (*x).into()).collect();
    let x = r[choose(n)];
    a.sort();
    r.sort();
    check(a.len() == r.len(), "sorting differs");
    for (s, t) in a.iter().zip(r.iter()) {
        check(**s == *t, "sorting differs");
    }
    let b: A<N> = x.into();
    check(a.binary_search(&b).is_ok(), "searching differs");
    a.dedup();
    r.dedup();
    check(a.len() == r.len(), "dedup differs");
}
