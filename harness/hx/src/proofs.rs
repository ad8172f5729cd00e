//! Binding of roots to contents and soundness of proofs.
use crate::hist::{self, Opt, BASE};
use crate::sym::*;
use crate::world::*;
use starling::hash_tree::HashTree;
use starling::merkle_bit::MerkleTree;
use starling::traits::{Database, Exception, Node};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::path::Path;

/// A database that never forgets what was stored where.
pub struct RecDB<const N: usize> {
    now: HashMap<Array<N>, TreeNode<N>>,
    ever: Vec<(Array<N>, TreeNode<N>)>,
}

impl<const N: usize> RecDB<N> {
    pub fn new() -> Self {
        Self { now: HashMap::new(), ever: Vec::new() }
    }
}

impl<const N: usize> Database<N, TreeNode<N>> for RecDB<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        Ok(Self::new())
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        Ok(self.now.get(&key).cloned())
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        let mut plain = node.clone();
        plain.set_references(0);
        let mut known = false;
        for (k, n) in &self.ever {
            if *k == key {
                check(*n == plain, "two distinct nodes are stored under the same location");
                known = true;
            }
        }
        if !known {
            self.ever.push((key, plain));
        }
        self.now.insert(key, node);
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        self.now.remove(key);
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        Ok(())
    }
}

pub struct RecTree;
impl<const N: usize> MerkleTree<N> for RecTree {
    type Database = RecDB<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}

/// Two (or three) contents, every pair of which must have equal roots exactly if they are equal.
/// Values have every length up to `maxlen`, all their bytes unconstrained.
pub fn binding<const N: usize>(trees: usize, pool: usize, pos: &[usize], lens: &[usize], chain: bool) {
    let keys = keys_at::<N>(pool, pos);
    let mut w: World<N, RecTree> = World::over(RecDB::new(), N * 8, keys);
    let sets = hist::sets(pool, false);
    for t in 0..trees {
        let s = sets[choose(sets.len())].clone();
        let l = lens[choose(lens.len())];
        let v = vec(l);
        let data: Vec<(usize, Val)> = s.iter().map(|i| (*i, v.clone())).collect();
        let prev = if chain && t > 0 && choose(2) == 1 { Some(t - 1) } else { None };
        w.insert(prev, &data);
    }
    w.check_distinct("different contents have the same root", "equal contents have different roots");
    w.check_reads("get at a live root returned a wrong answer", "get_one at a live root returned a wrong answer");
}

/// One-leaf trees with unrelated keys, one of them of every length: the encodings hashed must not
/// run together.
pub fn binding_keys<const N: usize>(lens: &[usize]) {
    let mut keys = keys_full::<N>(2);
    if choose(2) == 1 {
        keys.swap(0, 1);
    }
    let mut w: World<N, RecTree> = World::over(RecDB::new(), N * 8, keys);
    let (la, lb) = (lens[choose(lens.len())], lens[choose(lens.len())]);
    let (va, vb) = (vec(la), vec(lb));
    w.insert(None, &[(0, va.clone())]);
    w.insert(None, &[(1, vb.clone())]);
    w.insert(None, &[(0, va), (1, vb)]);
    w.check_distinct("different contents have the same root", "equal contents have different roots");
    w.check_reads("get at a live root returned a wrong answer", "get_one at a live root returned a wrong answer");
}

/// Distinctness of roots over histories.
pub fn binding_hist<const N: usize>(ops: usize, pool: usize, pos: &[usize]) {
    let keys = keys_at::<N>(pool, pos);
    let mut w: World<N, RecTree> = World::over(RecDB::new(), N * 8, keys);
    let o = Opt { removal: true, single: true, ..BASE };
    let n = 1 + choose(ops);
    for i in 0..n {
        hist::step(&mut w, i == 0, &o);
    }
    w.check_distinct("different contents have the same root", "equal contents have different roots");
}

/// A tree with up to `pool` keys; then an adversary offers any proof of `len` items.
pub fn forge<const N: usize>(pool: usize, pos: &[usize], len: usize, vlens: &[usize], anykey: bool) {
    let keys = keys_at::<N>(pool, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let data: Vec<(usize, Val)> = (0..pool).map(|i| (i, vec![i as u8])).collect();
    w.insert(None, &data);
    let root = w.handles[0].loc;
    let before = phash::issued();
    // the claim
    let k: [u8; N] = if anykey { bytes::<N>() } else { w.keys[choose(pool)] };
    let v = vec(vlens[choose(vlens.len())]);
    let mut proof: Vec<(Array<N>, bool)> = Vec::new();
    for _ in 0..len {
        let h = bytes::<N>();
        proof.push((arr(h), byte() & 1 == 1));
    }
    if HashTree::<N>::verify_inclusion_proof(&root, arr(k), &v, &proof).is_ok() {
        cover("accepted");
        let mut ok = false;
        for (i, key) in w.keys.iter().enumerate() {
            if *key == k {
                if let Some(x) = &w.handles[0].map[i] {
                    ok = x.len() == v.len() && x[..] == v[..];
                }
            }
        }
        check(ok, "a proof was accepted for a pair the root does not contain");
        check(phash::issued() == before, "a proof was accepted that hashes something no node contains");
    } else {
        cover("refused");
    }
}

/// A genuine proof of one key, mutilated or offered for something else.
pub fn mutilate<const N: usize>(pool: usize, pos: &[usize]) {
    let keys = keys_at::<N>(pool, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let data: Vec<(usize, Val)> = (0..pool).map(|i| (i, vec![i as u8, 0])).collect();
    w.insert(None, &data);
    // a second root that differs in one value
    let j = choose(pool);
    w.insert(Some(0), &[(j, vec![j as u8, 1])]);
    let i = choose(pool);
    let r = choose(2);
    let root = w.handles[r].loc;
    let k = arr(w.keys[i]);
    let proof = match w.t().generate_inclusion_proof(&root, k) {
        Ok(p) => p,
        Err(_) => {
            fail("no proof for a stored key");
            return;
        }
    };
    let val = w.handles[r].map[i].clone().unwrap_or_default();
    check(HashTree::<N>::verify_inclusion_proof(&root, k, &val, &proof).is_ok(), "a genuine proof was refused");
    let mut p2 = proof.clone();
    let mut root2 = root;
    let mut k2 = k;
    let mut v2 = val.clone();
    match choose(8) {
        0 => {
            // one item replaced by anything
            let at = choose(p2.len());
            let h: [u8; N] = bytes();
            p2[at] = (arr(h), byte() & 1 == 1);
        }
        1 => {
            p2.remove(choose(p2.len()));
        }
        2 => {
            let at = choose(p2.len() + 1);
            let h: [u8; N] = bytes();
            p2.insert(at, (arr(h), byte() & 1 == 1));
        }
        3 => {
            let (a, b) = (choose(p2.len()), choose(p2.len()));
            p2.swap(a, b);
        }
        4 => {
            v2 = vec(choose(4));
        }
        5 => {
            let h: [u8; N] = bytes();
            k2 = arr(h);
        }
        6 => {
            let h: [u8; N] = bytes();
            root2 = arr(h);
        }
        _ => {
            p2.truncate(choose(p2.len()));
        }
    }
    let ok = HashTree::<N>::verify_inclusion_proof(&root2, k2, &v2, &p2).is_ok();
    if ok {
        cover("still accepted");
        // then root, key and value must go together
        let mut good = false;
        for h in &w.handles {
            if h.loc == root2 {
                for (x, key) in w.keys.iter().enumerate() {
                    if arr(*key) == k2 {
                        if let Some(v) = &h.map[x] {
                            good |= v.len() == v2.len() && v[..] == v2[..];
                        }
                    }
                }
            }
        }
        // or the root is that of an inner tree of a genuine one: a truncated genuine proof
        if !good {
            good = inner(&mut w, &root2, &k2, &v2);
        }
        check(good, "a mutilated proof was accepted");
        let same_items = p2.len() == proof.len() && p2.iter().zip(&proof).skip(2).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
        if root2 == root && k2 == k {
            check(same_items, "a proof with a changed path was accepted");
        }
    } else {
        cover("refused");
    }
}

/// Whether `root`, possibly an inner node, is the root of a tree that stores `v` under `k`.
fn inner<const N: usize>(w: &mut World<N>, root: &Array<N>, k: &Array<N>, v: &Val) -> bool {
    match w.t().get_one(root, k) {
        Ok(Some(x)) => x.len() == v.len() && x[..] == v[..],
        _ => false,
    }
}

