//! The same operations on the tree of either build.
use crate::sym::*;
use starling::hash_tree::HashTree as S;
use starling_plain::hash_tree::HashTree as P;

type A<const N: usize> = starling::Array<N>;
type B<const N: usize> = starling_plain::Array<N>;
type Val = Vec<u8>;

fn a<const N: usize>(b: &[u8; N]) -> A<N> {
    (*b).into()
}
fn b<const N: usize>(b: &[u8; N]) -> B<N> {
    (*b).into()
}
fn raw<const N: usize>(x: &A<N>) -> [u8; N] {
    let mut r = [0; N];
    r.copy_from_slice(x.as_ref());
    r
}
fn raw_p<const N: usize>(x: &B<N>) -> [u8; N] {
    let mut r = [0; N];
    r.copy_from_slice(x.as_ref());
    r
}

/// `n` distinct keys in increasing order, free at the given positions (everywhere if none is given).
fn keys<const N: usize>(n: usize, pos: &[usize]) -> Vec<[u8; N]> {
    let mut mask = [if pos.is_empty() { 0xff } else { 0u8 }; N];
    for p in pos {
        mask[p / 8] |= 0x80 >> (p % 8);
    }
    let mut v: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let mut k = [0u8; N];
        for j in 0..N {
            if mask[j] != 0 {
                k[j] = byte() & mask[j];
            }
        }
        if i > 0 {
            assume(v[i - 1][..] < k[..]);
        }
        v.push(k);
    }
    v
}

struct Both<const N: usize> {
    s: S<N>,
    p: P<N>,
}

fn both<const N: usize>(depth: usize) -> Option<Both<N>> {
    match (S::<N>::new(depth), P::<N>::new(depth)) {
        (Ok(s), Ok(p)) => Some(Both { s, p }),
        _ => {
            fail("a tree cannot be made");
            None
        }
    }
}

type Res<const N: usize> = Option<[u8; N]>;

fn same_root<const N: usize>(x: Option<A<N>>, y: Option<B<N>>) -> Res<N> {
    match (x, y) {
        (Some(x), Some(y)) => {
            check(raw(&x) == raw_p(&y), "the roots differ");
            observe(&raw(&x));
            Some(raw(&x))
        }
        (None, None) => None,
        _ => {
            fail("only one build refuses an insert");
            None
        }
    }
}

fn same_value(x: Option<Val>, y: Option<Val>, msg: &str) {
    match (x, y) {
        (Some(x), Some(y)) => check(x == y, msg),
        (None, None) => {}
        _ => fail(msg),
    }
}

impl<const N: usize> Both<N> {
    fn insert(&mut self, prev: &Res<N>, ks: &[[u8; N]], vs: &[Val]) -> Res<N> {
        let x = self.s.insert(prev.map(|r| a(&r)).as_ref(), &mut ks.iter().map(a).collect::<Vec<_>>(), vs).ok();
        let y = self.p.insert(prev.map(|r| b(&r)).as_ref(), &mut ks.iter().map(b).collect::<Vec<_>>(), vs).ok();
        same_root(x, y)
    }
    fn insert_one(&mut self, prev: &Res<N>, k: &[u8; N], v: &Val) -> Res<N> {
        let x = self.s.insert_one(prev.map(|r| a(&r)).as_ref(), &a(k), v).ok();
        let y = self.p.insert_one(prev.map(|r| b(&r)).as_ref(), &b(k), v).ok();
        same_root(x, y)
    }
    fn remove(&mut self, r: &[u8; N]) {
        let (x, y) = (self.s.remove(&a(r)).is_ok(), self.p.remove(&b(r)).is_ok());
        check(x == y, "only one build refuses a removal");
    }
    fn reads(&self, root: &[u8; N], ks: &[[u8; N]]) {
        let x = self.s.get(&a(root), &mut ks.iter().map(a).collect::<Vec<_>>()).ok();
        let y = self.p.get(&b(root), &mut ks.iter().map(b).collect::<Vec<_>>()).ok();
        match (x, y) {
            (Some(x), Some(y)) => {
                check(x.len() == y.len(), "get answers for another number of keys");
                for k in ks {
                    match (x.get(&a(k)), y.get(&b(k))) {
                        (Some(v), Some(w)) => same_value(v.clone(), w.clone(), "get differs"),
                        _ => fail("get does not answer for a key"),
                    }
                }
            }
            (None, None) => cover("refused"),
            _ => fail("only one build refuses a get"),
        }
        for k in ks {
            match (self.s.get_one(&a(root), &a(k)).ok(), self.p.get_one(&b(root), &b(k)).ok()) {
                (Some(v), Some(w)) => same_value(v, w, "get_one differs"),
                (None, None) => cover("refused"),
                _ => fail("only one build refuses a get_one"),
            }
        }
    }
    fn proofs(&self, root: &[u8; N], ks: &[[u8; N]]) {
        for k in ks {
            match (self.s.generate_inclusion_proof(&a(root), a(k)).ok(), self.p.generate_inclusion_proof(&b(root), b(k)).ok()) {
                (Some(x), Some(y)) => {
                    check(x.len() == y.len(), "the proofs differ");
                    for (l, m) in x.iter().zip(y.iter()) {
                        check(raw(&l.0) == raw_p(&m.0) && l.1 == m.1, "the proofs differ");
                    }
                    if let Ok(Some(v)) = self.s.get_one(&a(root), &a(k)) {
                        let s = S::verify_inclusion_proof(&a(root), a(k), &v, &x).is_ok();
                        let p = P::verify_inclusion_proof(&b(root), b(k), &v, &y).is_ok();
                        check(s == p, "only one build accepts a proof");
                    }
                }
                (None, None) => cover("no proof"),
                _ => fail("only one build refuses a proof"),
            }
        }
    }
}

/// Histories of up to `ops` operations over a pool of `p` keys.
pub fn hist<const N: usize>(ops: usize, p: usize, pos: &[usize], depth: usize) {
    let ks = keys::<N>(p, pos);
    let mut t = match both::<N>(depth) {
        Some(t) => t,
        None => return,
    };
    let mut roots: Vec<([u8; N], bool)> = Vec::new();
    let n = 1 + choose(ops);
    for _ in 0..n {
        let live: Vec<usize> = (0..roots.len()).filter(|i| roots[*i].1).collect();
        let inserts = ((1 << p) - 1) * (1 + live.len());
        let c = choose(inserts + live.len());
        if c >= inserts {
            cover("removal");
            tag("remove");
            let h = live[c - inserts];
            t.remove(&roots[h].0);
            roots[h].1 = false;
            continue;
        }
        let m = 1 + c % ((1 << p) - 1);
        let prev = match c / ((1 << p) - 1) {
            0 => None,
            h => {
                cover("insert on a previous root");
                Some(roots[live[h - 1]].0)
            }
        };
        let v = byte();
        let set: Vec<usize> = (0..p).filter(|i| m >> i & 1 == 1).collect();
        let r = if set.len() == 1 {
            tag("insert_one");
            t.insert_one(&prev, &ks[set[0]], &vec![v, set[0] as u8])
        } else {
            tag("insert");
            // the greatest key first
            let k: Vec<[u8; N]> = set.iter().rev().map(|i| ks[*i]).collect();
            let v: Vec<Val> = set.iter().rev().map(|i| vec![v, *i as u8]).collect();
            t.insert(&prev, &k, &v)
        };
        if let Some(r) = r {
            roots.push((r, true));
        }
    }
    for (r, _) in &roots {
        t.reads(r, &ks);
        t.proofs(r, &ks);
    }
}

/// Any proof at all, for a tree of two keys.
pub fn forge<const N: usize>(items: usize) {
    let ks = keys::<N>(2, &[0, N * 8 - 1]);
    let mut t = match both::<N>(N * 8) {
        Some(t) => t,
        None => return,
    };
    let v: Val = vec![byte()];
    let r = match t.insert(&None, &ks, &[v.clone(), v.clone()]) {
        Some(r) => r,
        None => return fail("an insert was refused"),
    };
    let n = choose(items + 1);
    let mut x: Vec<(A<N>, bool)> = Vec::new();
    let mut y: Vec<(B<N>, bool)> = Vec::new();
    for _ in 0..n {
        let l: [u8; N] = bytes();
        let s = byte() & 1 == 1;
        x.push((a(&l), s));
        y.push((b(&l), s));
    }
    let k: [u8; N] = bytes();
    let w: Val = vec![byte()];
    let s = S::verify_inclusion_proof(&a(&r), a(&k), &w, &x).is_ok();
    let p = P::verify_inclusion_proof(&b(&r), b(&k), &w, &y).is_ok();
    check(s == p, "only one build accepts a proof");
    cover(if s { "accepted" } else { "refused" });
}

/// Calls with bad arguments.
pub fn bad<const N: usize>() {
    let ks = keys::<N>(2, &[0, N * 8 - 1]);
    let mut t = match both::<N>(N * 8) {
        Some(t) => t,
        None => return,
    };
    let v: Val = vec![byte()];
    let r = match t.insert(&None, &ks, &[v.clone(), v.clone()]) {
        Some(r) => r,
        None => return fail("an insert was refused"),
    };
    let prev = match choose(3) {
        0 => None,
        1 => Some(r),
        _ => Some(bytes::<N>()),
    };
    let out = match choose(5) {
        0 => t.insert(&prev, &[], &[]),
        1 => t.insert(&prev, &ks, &[v.clone()]),
        2 => t.insert(&prev, &ks[..1], &[v.clone(), v.clone()]),
        3 => t.insert(&prev, &[ks[0], ks[1], ks[0]], &[v.clone(), v.clone(), v.clone()]),
        _ => t.insert_one(&prev, &bytes::<N>(), &v),
    };
    cover(if out.is_some() { "inserted" } else { "refused" });
    if let Some(p) = prev {
        t.reads(&p, &ks);
        t.proofs(&p, &ks);
        t.remove(&p);
    }
    t.reads(&r, &ks);
}
