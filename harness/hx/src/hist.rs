//! Histories: sequences of inserts (from nothing or on top of any live root, batch or single) and
//! removals, compared with a model after the last operation. Shorter histories are explored too, so
//! every intermediate state is the last state of some history.
use crate::sym::*;
use crate::world::*;
use starling::merkle_bit::MerkleTree;

/// What is checked at the end of a history.
#[derive(Clone, Copy)]
pub struct Opt {
    /// removals are among the operations
    pub removal: bool,
    /// inserts may build on any live root (otherwise: nothing or the newest)
    pub any_prev: bool,
    /// inserts may start from nothing after the first operation
    pub fresh: bool,
    /// one-element inserts may use `insert_one`
    pub single: bool,
    /// only one-element sets or the whole pool are inserted
    pub few_sets: bool,
    pub new_reads: bool,
    pub all_reads: bool,
    pub proofs: bool,
    pub refs: bool,
    pub trie: bool,
    pub canon: bool,
    pub distinct: bool,
    /// after the operations remove every root, one at a time, checking the rest in between
    pub drain: bool,
}

pub const BASE: Opt = Opt {
    removal: false,
    any_prev: true,
    fresh: true,
    single: false,
    few_sets: false,
    new_reads: false,
    all_reads: false,
    proofs: false,
    refs: false,
    trie: false,
    canon: false,
    distinct: false,
    drain: false,
};

/// The sets of pool positions an insert may write.
pub fn sets(p: usize, few: bool) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for m in 1usize..(1 << p) {
        let s: Vec<usize> = (0..p).filter(|i| m >> i & 1 == 1).collect();
        if !few || s.len() == 1 || s.len() == p {
            out.push(s);
        }
    }
    out
}

/// One operation of the history.
pub fn step<const N: usize, M: MerkleTree<N, Value = Val>>(w: &mut World<N, M>, first: bool, o: &Opt) {
    let p = w.keys.len();
    let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
    let mut prevs: Vec<Option<usize>> = Vec::new();
    if first || o.fresh || live.is_empty() {
        prevs.push(None);
    }
    if o.any_prev {
        for h in &live {
            prevs.push(Some(*h));
        }
    } else if let Some(h) = live.last() {
        prevs.push(Some(*h));
    }
    let sets = sets(p, o.few_sets);
    let inserts = sets.len() * prevs.len();
    let removals = if o.removal { live.len() } else { 0 };
    let c = choose(inserts + removals);
    if c >= inserts {
        cover("removal");
        tag("remove");
        w.remove(live[c - inserts]);
        return;
    }
    let set = &sets[c % sets.len()];
    let prev = prevs[c / sets.len()];
    let v = byte();
    let data: Vec<(usize, Val)> = set.iter().map(|i| (*i, vec![v, *i as u8])).collect();
    if prev.is_some() {
        cover("insert on a previous root");
    }
    if o.single && set.len() == 1 && choose(2) == 1 {
        cover("insert_one");
        tag("insert_one");
        w.insert_one(prev, set[0], &data[0].1);
    } else {
        tag("insert");
        w.insert(prev, &data);
    }
}

pub fn checks<const N: usize>(w: &mut World<N>, o: &Opt) {
    if o.new_reads {
        if let Some(h) = (0..w.handles.len()).filter(|i| w.handles[*i].live).last() {
            w.check_reads_at(h, "get at a new root returned a wrong answer", "get_one at a new root returned a wrong answer");
        }
    }
    if o.all_reads {
        w.check_reads("get at a live root returned a wrong answer", "get_one at a live root returned a wrong answer");
    }
    if o.proofs {
        w.check_proofs("proof of a stored key not generated or not accepted", "proof generated for an absent key");
    }
    if o.refs {
        w.check_refs("reference count of a stored node is not the number of its owners");
    }
    if o.trie {
        w.check_trie();
    }
    if o.canon {
        w.check_canon("root differs from that of a tree built at once from the same content");
    }
    if o.distinct {
        w.check_distinct("different contents have the same root", "equal contents have different roots");
    }
}

pub fn run<const N: usize>(w: &mut World<N>, ops: usize, o: &Opt) {
    let n = 1 + choose(ops);
    for i in 0..n {
        step(w, i == 0, o);
    }
    checks(w, o);
    if o.drain {
        let rev = w.handles.iter().filter(|h| h.live).count() > 1 && choose(2) == 1;
        let mut order: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
        if rev {
            order.reverse();
        }
        for h in order {
            w.remove(h);
            let o2 = Opt { new_reads: false, canon: false, trie: false, distinct: false, ..*o };
            checks(w, &o2);
        }
        if o.refs {
            w.check_empty("nodes are left after the last root was removed");
        }
    }
}

/// Keys unconstrained at the given bit positions.
pub fn at<const N: usize>(ops: usize, pool: usize, pos: &[usize], o: Opt) {
    let keys = keys_at::<N>(pool, pos);
    let mut w = World::<N>::new(N * 8, keys);
    run(&mut w, ops, &o);
}

/// Keys unconstrained at every bit.
pub fn full<const N: usize>(ops: usize, pool: usize, o: Opt) {
    let keys = keys_full::<N>(pool);
    let mut w = World::<N>::new(N * 8, keys);
    run(&mut w, ops, &o);
}

/// A tree with `n` fixed, well spread keys of which some versions exist; then a history over a pool of
/// a few of those keys and new ones, one of them unconstrained in one byte.
pub fn large<const N: usize>(n: usize, ops: usize, o: Opt) {
    let mut keys: Vec<[u8; N]> = Vec::new();
    let mut x: u32 = 12345;
    for i in 0..n {
        let mut k = [0u8; N];
        for (j, b) in k.iter_mut().enumerate() {
            x = x.wrapping_mul(1_103_515_245).wrapping_add(12345);
            // clusters of keys sharing long prefixes
            *b = if j + 2 < N && i % 3 != 0 { (i as u8 % 5) * 0x31 } else { (x >> 16) as u8 };
        }
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let base = keys.len();
    // the unconstrained key: like key 1 but for one byte
    let mut s = keys[1];
    let which = [0, N / 2, N - 1][choose(3)];
    s[which] = byte();
    let mut w = World::<N>::new(N * 8, keys);
    let half: Vec<(usize, Val)> = (0..base).step_by(2).map(|i| (i, vec![i as u8])).collect();
    let rest: Vec<(usize, Val)> = (0..base).filter(|i| i % 2 == 1).map(|i| (i, vec![i as u8, 1])).collect();
    let a = w.insert(None, &half);
    let b = w.insert(a, &rest);
    let mut old = None;
    for i in 0..w.keys.len() {
        if w.keys[i] == s {
            old = Some(i);
        }
    }
    let si = match old {
        Some(i) => {
            cover("existing key");
            i
        }
        None => {
            cover("new key");
            w.add_key(s);
            w.keys.len() - 1
        }
    };
    for i in 0..ops {
        let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
        let v = byte();
        // only the newest three roots and a few sets
        let last = live.len() - 1;
        let c = choose(if o.removal && live.len() > 1 { 4 } else { 3 });
        match c {
            0 => {
                w.insert(Some(live[last]), &[(si, vec![v])]);
            }
            1 => {
                let set = [(si, vec![v]), (i, vec![i as u8]), (base - 1 - i, vec![v, 2])];
                let set: Vec<(usize, Val)> = set.into_iter().enumerate().filter(|(j, x)| *j == 0 || x.0 != si).map(|x| x.1).collect();
                w.insert(Some(live[last - last.min(1)]), &set);
            }
            2 => {
                w.insert_one(Some(live[last]), si, &vec![v]);
            }
            _ => w.remove(live[last]),
        }
    }
    let _ = b;
    checks(&mut w, &o);
    if o.drain {
        let order: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
        for h in order {
            w.remove(h);
        }
        if o.refs {
            w.check_empty("nodes are left after the last root was removed");
        }
    }
}

/// One batch of `n` keys, all shapes the bit positions allow.
pub fn batch<const N: usize>(n: usize, pos: &[usize], o: Opt) {
    let keys = keys_at::<N>(n, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let v = byte();
    let set: Vec<(usize, Val)> = (0..n).map(|i| (i, vec![v, i as u8])).collect();
    w.insert(None, &set);
    checks(&mut w, &o);
    if o.drain {
        w.remove(0);
        w.check_empty("nodes are left after the last root was removed");
    }
}

/// A batch on top of a batch: all shapes of both.
pub fn batch2<const N: usize>(a: usize, b: usize, pos: &[usize], o: Opt) {
    let keys = keys_at::<N>(a + b, pos);
    let mut w = World::<N>::new(N * 8, keys);
    // which of the pool are written first: all subsets of size a
    let all = sets(a + b, false);
    let firsts: Vec<Vec<usize>> = all.into_iter().filter(|s| s.len() == a).collect();
    let f = firsts[choose(firsts.len())].clone();
    let v = byte();
    let first: Vec<(usize, Val)> = f.iter().map(|i| (*i, vec![*i as u8])).collect();
    let second: Vec<(usize, Val)> = (0..a + b).filter(|i| !f.contains(i)).map(|i| (i, vec![v, i as u8])).collect();
    let r = w.insert(None, &first);
    w.insert(r, &second);
    checks(&mut w, &o);
    if o.drain {
        w.remove(choose(2));
        checks(&mut w, &o);
        for h in 0..2 {
            if w.handles[h].live {
                w.remove(h);
            }
        }
        w.check_empty("nodes are left after the last root was removed");
    }
}

/// A batch on top of a batch with keys in common: any `a` and any `b` of the pool.
pub fn overlap<const N: usize>(pool: usize, a: usize, b: usize, pos: &[usize], o: Opt) {
    let keys = keys_at::<N>(pool, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let v = byte();
    let pick = |n: usize, tagged: u8| -> Vec<(usize, Val)> {
        let s: Vec<Vec<usize>> = sets(pool, false).into_iter().filter(|s| s.len() == n).collect();
        s[choose(s.len())].iter().map(|i| (*i, vec![if tagged == 1 { v } else { 0 }, *i as u8])).collect()
    };
    let first = pick(a, 0);
    let second = pick(b, 1);
    let r = w.insert(None, &first);
    w.insert(r, &second);
    checks(&mut w, &o);
    if o.drain {
        w.remove(choose(2));
        checks(&mut w, &o);
        for h in 0..2 {
            if w.handles[h].live {
                w.remove(h);
            }
        }
        w.check_empty("nodes are left after the last root was removed");
    }
}

/// Values of special lengths, with unconstrained contents.
pub fn values<const N: usize>(lens: &[usize], o: Opt) {
    let keys = keys_at::<N>(2, &[0, N * 8 - 1]);
    let mut w = World::<N>::new(N * 8, keys);
    let l = lens[choose(lens.len())];
    let mut v1 = vec![7; l];
    let mut v2 = vec![7; l];
    // unconstrained at both ends and in the middle
    for i in 0..l {
        if i < 2 || i == l / 2 || i + 2 >= l {
            v1[i] = byte();
            v2[i] = byte();
        }
    }
    let r = w.insert(None, &[(0, v1.clone()), (1, vec![])]);
    let r2 = w.insert_one(r, 1, &v2);
    w.insert_one(r2, 0, &v2);
    checks(&mut w, &o);
    if o.drain {
        for h in 0..w.handles.len() {
            w.remove(h);
            checks(&mut w, &o);
        }
        w.check_empty("nodes are left after the last root was removed");
    }
}

/// More leaves than fit in a byte: counters and reference counts.
pub fn many<const N: usize>(n: usize, versions: usize, o: Opt) {
    let mut keys: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let mut k = [0u8; N];
        k[0] = (i >> 8) as u8;
        k[N - 1] = i as u8;
        keys.push(k);
    }
    let mut w = World::<N>::new(N * 8, keys);
    let all: Vec<(usize, Val)> = (0..n).map(|i| (i, vec![i as u8])).collect();
    let mut r = w.insert(None, &all);
    for j in 0..versions {
        let v = byte();
        assume(v > 1);
        let i = [0, n / 2, n - 1][choose(3)];
        r = w.insert_one(r, i, &vec![v, j as u8]);
    }
    checks(&mut w, &o);
}

/// The same root handed out many times: its reference count exceeds a byte.
pub fn handed_out<const N: usize>(n: usize) {
    let keys = keys_at::<N>(2, &[0, N * 8 - 1]);
    let mut w = World::<N>::new(N * 8, keys);
    let v = byte();
    let both = choose(2);
    for _ in 0..n {
        if both == 1 {
            w.insert(None, &[(0, vec![v]), (1, vec![1])]);
        } else {
            w.insert_one(None, 0, &vec![v]);
        }
    }
    w.check_refs("reference count of a stored node is not the number of its owners");
    let keep = choose(2);
    for h in 0..n - keep {
        w.remove(h);
    }
    if keep == 0 {
        w.check_empty("nodes are left after the last root was removed");
    } else {
        w.check_refs("reference count of a stored node is not the number of its owners");
        w.check_reads("get at a live root returned a wrong answer", "get_one at a live root returned a wrong answer");
    }
}

/// A batch, then inserts of one new key each on top of any root so far, then removals of any roots,
/// everything checked after each of these.
pub fn chain<const N: usize>(base: usize, steps: usize, removals: usize, pos: &[usize], o: Opt) {
    let keys = keys_at::<N>(base + steps, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let v = byte();
    let firsts: Vec<Vec<usize>> = sets(base + steps, false).into_iter().filter(|s| s.len() == base).collect();
    let f = firsts[choose(firsts.len())].clone();
    let first: Vec<(usize, Val)> = f.iter().map(|i| (*i, vec![*i as u8])).collect();
    w.insert(None, &first);
    let mut rest: Vec<usize> = (0..base + steps).filter(|i| !f.contains(i)).collect();
    while !rest.is_empty() {
        let prev = if o.any_prev { choose(w.handles.len()) } else { w.handles.len() - 1 };
        let i = rest.remove(choose(rest.len()));
        if o.single {
            w.insert_one(Some(prev), i, &vec![v, i as u8]);
        } else {
            w.insert(Some(prev), &[(i, vec![v, i as u8])]);
        }
    }
    checks(&mut w, &o);
    for _ in 0..removals {
        let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
        w.remove(live[choose(live.len())]);
        checks(&mut w, &o);
    }
    if o.drain {
        for h in (0..w.handles.len()).rev() {
            if w.handles[h].live {
                w.remove(h);
            }
        }
        w.check_empty("nodes are left after the last root was removed");
    }
}
