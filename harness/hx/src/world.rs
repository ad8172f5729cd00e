//! A tree built on the crate's real types plus the reference model it is compared with.
use crate::sym::*;
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Branch, Leaf, Node, NodeVariant};
use starling::tree::tree_node::TreeNode;
use starling::tree_db::HashTreeDB;
use starling::Array;

#[cfg(feature = "hashbrown")]
pub use hashbrown_crate::HashMap;
#[cfg(not(feature = "hashbrown"))]
pub use std::collections::HashMap;

pub type Tree<const N: usize> = MerkleBIT<HashTree<N>, N>;
pub type Val = Vec<u8>;

pub fn arr<const N: usize>(b: [u8; N]) -> Array<N> {
    b.into()
}

/// A key whose bits are unconstrained at the given positions and zero elsewhere.
pub fn key_at<const N: usize>(pos: &[usize]) -> [u8; N] {
    let mut mask = [0u8; N];
    for p in pos {
        mask[p / 8] |= 0x80 >> (p % 8);
    }
    let mut k = [0u8; N];
    for i in 0..N {
        if mask[i] != 0 {
            k[i] = byte() & mask[i];
        }
    }
    k
}

/// `n` distinct keys in increasing order (which of them an operation uses is chosen separately).
pub fn keys_at<const N: usize>(n: usize, pos: &[usize]) -> Vec<[u8; N]> {
    let mut v: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let k = key_at::<N>(pos);
        if i > 0 {
            assume(v[i - 1][..] < k[..]);
        }
        v.push(k);
    }
    v
}

/// `n` distinct keys in increasing order, all bits unconstrained.
pub fn keys_full<const N: usize>(n: usize) -> Vec<[u8; N]> {
    let pos: Vec<usize> = (0..N * 8).collect();
    keys_at::<N>(n, &pos)
}

#[derive(Clone)]
pub struct Handle<const N: usize> {
    pub loc: Array<N>,
    /// What this root must contain, by position in the key pool.
    pub map: Vec<Option<Val>>,
    pub live: bool,
}

/// The tree as its users hold it: in its wrapper, or bare over some database.
pub enum Any<M: MerkleTree<N, Value = Val>, const N: usize> {
    Wrapped(HashTree<N>),
    Bare(MerkleBIT<M, N>),
}

type Res<T> = Result<T, starling::traits::Exception>;
pub type Proof<const N: usize> = Vec<(Array<N>, bool)>;

macro_rules! either {
    ($t:expr, $x:ident => $e:expr) => {
        match $t {
            Any::Wrapped($x) => $e,
            Any::Bare($x) => $e,
        }
    };
}

impl<M: MerkleTree<N, Value = Val>, const N: usize> Any<M, N> {
    pub fn insert(&mut self, prev: Option<&Array<N>>, k: &mut [Array<N>], v: &[Val]) -> Res<Array<N>> {
        either!(self, t => t.insert(prev, k, v))
    }
    pub fn insert_one(&mut self, prev: Option<&Array<N>>, k: &Array<N>, v: &Val) -> Res<Array<N>> {
        either!(self, t => t.insert_one(prev, k, v))
    }
    pub fn get(&self, root: &Array<N>, k: &mut [Array<N>]) -> Res<HashMap<Array<N>, Option<Val>>> {
        either!(self, t => t.get(root, k))
    }
    pub fn get_one(&self, root: &Array<N>, k: &Array<N>) -> Res<Option<Val>> {
        either!(self, t => t.get_one(root, k))
    }
    pub fn remove(&mut self, root: &Array<N>) -> Res<()> {
        either!(self, t => t.remove(root))
    }
    pub fn generate_inclusion_proof(&self, root: &Array<N>, k: Array<N>) -> Res<Proof<N>> {
        either!(self, t => t.generate_inclusion_proof(root, k))
    }
    pub fn verify_inclusion_proof(&self, root: &Array<N>, k: Array<N>, v: &Val, p: &[(Array<N>, bool)]) -> Res<()> {
        match self {
            Any::Wrapped(_) => HashTree::<N>::verify_inclusion_proof(root, k, v, p),
            Any::Bare(_) => MerkleBIT::<M, N>::verify_inclusion_proof(root, k, v, p),
        }
    }
}

impl<const N: usize> Any<HashTree<N>, N> {
    pub fn decompose(self) -> (HashTreeDB<N>, usize) {
        either!(self, t => t.decompose())
    }
}

pub struct World<const N: usize, M: MerkleTree<N, Value = Val> = HashTree<N>> {
    pub tree: Option<Any<M, N>>,
    pub depth: usize,
    pub keys: Vec<[u8; N]>,
    pub handles: Vec<Handle<N>>,
}

impl<const N: usize> World<N> {
    pub fn new(depth: usize, keys: Vec<[u8; N]>) -> Self {
        // either way of making one
        let tree = if depth % 64 == 0 { HashTree::open(std::path::Path::new("unused"), depth) } else { HashTree::new(depth) };
        Self { tree: tree.ok().map(Any::Wrapped), depth, keys, handles: Vec::new() }
    }
}

impl<const N: usize, M: MerkleTree<N, Value = Val>> World<N, M> {
    pub fn over(db: M::Database, depth: usize, keys: Vec<[u8; N]>) -> Self {
        Self { tree: MerkleBIT::from_db(db, depth).ok().map(Any::Bare), depth, keys, handles: Vec::new() }
    }

    pub fn t(&mut self) -> &mut Any<M, N> {
        match &mut self.tree {
            Some(t) => t,
            None => {
                fail("harness: no tree");
                panic!()
            }
        }
    }

    pub fn insert(&mut self, prev: Option<usize>, set: &[(usize, Val)]) -> Option<usize> {
        let prev_loc = prev.map(|h| self.handles[h].loc);
        let mut keys: Vec<Array<N>> = Vec::new();
        let mut vals: Vec<Val> = Vec::new();
        let mut map = match prev {
            Some(h) => self.handles[h].map.clone(),
            None => vec![None; self.keys.len()],
        };
        for (i, v) in set {
            keys.push(arr(self.keys[*i]));
            vals.push(v.clone());
            map[*i] = Some(v.clone());
        }
        match self.t().insert(prev_loc.as_ref(), &mut keys, &vals) {
            Ok(loc) => {
                observe(&loc[..]);
                self.handles.push(Handle { loc, map, live: true });
                Some(self.handles.len() - 1)
            }
            Err(_) => {
                fail("insert of distinct keys failed");
                None
            }
        }
    }

    pub fn insert_one(&mut self, prev: Option<usize>, i: usize, v: &Val) -> Option<usize> {
        let prev_loc = prev.map(|h| self.handles[h].loc);
        let mut map = match prev {
            Some(h) => self.handles[h].map.clone(),
            None => vec![None; self.keys.len()],
        };
        map[i] = Some(v.clone());
        let k = arr(self.keys[i]);
        match self.t().insert_one(prev_loc.as_ref(), &k, v) {
            Ok(loc) => {
                observe(&loc[..]);
                self.handles.push(Handle { loc, map, live: true });
                Some(self.handles.len() - 1)
            }
            Err(_) => {
                fail("insert_one failed");
                None
            }
        }
    }

    /// A key that nothing stores yet joins the pool.
    pub fn add_key(&mut self, k: [u8; N]) {
        self.keys.push(k);
        for h in self.handles.iter_mut() {
            h.map.push(None);
        }
    }

    pub fn remove(&mut self, h: usize) {
        let loc = self.handles[h].loc;
        if self.t().remove(&loc).is_err() {
            fail("remove of a live root failed");
        }
        self.handles[h].live = false;
    }

    /// Every key of the pool, read at every live root, gives exactly what the model says.
    pub fn check_reads(&mut self, msg_get: &str, msg_one: &str) {
        for h in 0..self.handles.len() {
            if self.handles[h].live {
                self.check_reads_at(h, msg_get, msg_one);
            }
        }
    }

    pub fn check_reads_at(&mut self, h: usize, msg_get: &str, msg_one: &str) {
        let loc = self.handles[h].loc;
        let mut keys: Vec<Array<N>> = self.keys.iter().map(|k| arr(*k)).collect();
        let want = self.handles[h].map.clone();
        let pool = self.keys.clone();
        match self.t().get(&loc, &mut keys) {
            Ok(m) => {
                check(m.len() == pool.len(), msg_get);
                for (i, k) in pool.iter().enumerate() {
                    match m.get(&arr(*k)) {
                        None => fail(msg_get),
                        Some(got) => check_val(got, &want[i], msg_get),
                    }
                }
            }
            Err(_) => fail(msg_get),
        }
        for (i, k) in pool.iter().enumerate() {
            match self.t().get_one(&loc, &arr(*k)) {
                Ok(got) => check_val(&got, &want[i], msg_one),
                Err(_) => fail(msg_one),
            }
        }
    }

    /// Every stored key of every live root has a proof which is accepted; no other key has one.
    pub fn check_proofs(&mut self, msg: &str, msg_absent: &str) {
        for h in 0..self.handles.len() {
            if self.handles[h].live {
                let loc = self.handles[h].loc;
                for i in 0..self.keys.len() {
                    let k = arr(self.keys[i]);
                    let want = self.handles[h].map[i].clone();
                    match (self.t().generate_inclusion_proof(&loc, k), want) {
                        (Ok(p), Some(v)) => {
                            check(self.t().verify_inclusion_proof(&loc, k, &v, &p).is_ok(), msg);
                        }
                        (Err(_), Some(_)) => fail(msg),
                        (Ok(_), None) => fail(msg_absent),
                        (Err(_), None) => cover("absent key"),
                    }
                }
            }
        }
    }

    /// Roots are equal exactly if contents are.
    pub fn check_distinct(&mut self, msg_same: &str, msg_diff: &str) {
        for a in 0..self.handles.len() {
            for b in 0..a {
                let same = self.handles[a].loc == self.handles[b].loc;
                let (ma, mb) = (&self.handles[a].map, &self.handles[b].map);
                let mut eq = true;
                for i in 0..ma.len() {
                    match (&ma[i], &mb[i]) {
                        (None, None) => {}
                        (Some(x), Some(y)) => eq = eq && x[..] == y[..],
                        _ => eq = false,
                    }
                }
                if same {
                    cover("equal roots");
                    check(eq, msg_same);
                } else {
                    check(!eq, msg_diff);
                }
            }
        }
    }
}

impl<const N: usize> World<N> {
    /// A tree built at once, in a new store, from the same content has the same root.
    pub fn check_canon(&mut self, msg: &str) {
        for h in 0..self.handles.len() {
            if self.handles[h].live {
                let mut w = World::<N>::new(self.depth, self.keys.clone());
                let mut set = Vec::new();
                for (i, v) in self.handles[h].map.iter().enumerate() {
                    if let Some(v) = v {
                        set.push((i, v.clone()));
                    }
                }
                w.insert(None, &set);
                check(w.handles[0].loc == self.handles[h].loc, msg);
            }
        }
    }

    /// Look at the stored nodes.
    pub fn with_db<R>(&mut self, f: impl FnOnce(&HashMap<Array<N>, TreeNode<N>>, &[Handle<N>]) -> R) -> R {
        let t = match self.tree.take() {
            Some(t) => t,
            None => {
                fail("harness: no tree");
                panic!()
            }
        };
        let (db, depth) = t.decompose();
        check(depth == self.depth, "decompose changed the depth");
        let map = db.decompose();
        let r = f(&map, &self.handles);
        self.tree = Tree::from_db(HashTreeDB::new(map), depth).ok().map(Any::Bare);
        r
    }

    /// Stored reference counts are exactly: stored parents plus live roots; no dangling pointers; no
    /// node without a reference.
    pub fn check_refs(&mut self, msg: &str) {
        self.with_db(|map, handles| {
            let mut want: HashMap<Array<N>, u64> = map.keys().map(|k| (*k, 0)).collect();
            let add = |want: &mut HashMap<Array<N>, u64>, l: &Array<N>| match want.get_mut(l) {
                Some(c) => *c += 1,
                None => fail(msg),
            };
            for n in map.values() {
                match n.clone().get_variant() {
                    NodeVariant::Branch(b) => {
                        add(&mut want, b.get_zero());
                        add(&mut want, b.get_one());
                    }
                    NodeVariant::Leaf(l) => add(&mut want, l.get_data()),
                    _ => {}
                }
            }
            for h in handles {
                if h.live {
                    add(&mut want, &h.loc);
                }
            }
            for (k, c) in &want {
                match map.get(k) {
                    Some(n) => check(n.get_references() == *c && *c > 0, msg),
                    None => fail(msg),
                }
            }
        })
    }

    /// Every live root is a well-formed compressed binary trie over exactly the keys of its content.
    pub fn check_trie(&mut self) {
        let keys = self.keys.clone();
        self.with_db(|map, handles| {
            for h in handles {
                if h.live {
                    let mut found = Vec::new();
                    walk(map, &h.loc, 0, &mut found, true);
                    let mut want: Vec<[u8; N]> =
                        keys.iter().zip(&h.map).filter(|(_, v)| v.is_some()).map(|(k, _)| *k).collect();
                    check(found.len() == want.len(), "a stored tree has the wrong number of leaves");
                    want.sort_unstable();
                    for (f, k) in found.iter().zip(&want) {
                        check(f == k, "a stored tree lacks a leaf or has them out of order");
                    }
                }
            }
        })
    }

    pub fn check_empty(&mut self, msg: &str) {
        self.with_db(|map, _| check(map.is_empty(), msg))
    }
}

pub fn check_val(got: &Option<Val>, want: &Option<Val>, msg: &str) {
    match (got, want) {
        (None, None) => {}
        (Some(a), Some(b)) => check(a.len() == b.len() && a[..] == b[..], msg),
        _ => fail(msg),
    }
}

pub fn bit<const N: usize>(k: &[u8; N], i: usize) -> u8 {
    k[i / 8] >> (7 - i % 8) & 1
}

/// Collect the leaf keys below `loc`, checking every branch against them.
pub fn walk<const N: usize>(
    map: &HashMap<Array<N>, TreeNode<N>>,
    loc: &Array<N>,
    min_split: usize,
    out: &mut Vec<[u8; N]>,
    root: bool,
) {
    let n = match map.get(loc) {
        Some(n) => n.clone(),
        None => {
            fail("a stored tree points to a missing node");
            return;
        }
    };
    match n.get_variant() {
        NodeVariant::Branch(b) => {
            let s = b.get_split_index();
            check(s < N * 8 && (root || s >= min_split), "split index out of range or not increasing");
            if s >= N * 8 || out.len() > 2000 {
                return;
            }
            let mut zero = Vec::new();
            let mut one = Vec::new();
            walk(map, b.get_zero(), s + 1, &mut zero, false);
            walk(map, b.get_one(), s + 1, &mut one, false);
            check(!zero.is_empty() && !one.is_empty(), "a branch with an empty side");
            check(b.get_count() == (zero.len() + one.len()) as u64, "count of a branch is not its number of leaves");
            let bk: [u8; N] = (*b.get_key()).into();
            for (side, v) in [&zero, &one].into_iter().enumerate() {
                for k in v {
                    check(bit(k, s) == side as u8, "a key on the wrong side of a branch");
                    let mut same = true;
                    for i in 0..s / 8 {
                        same &= k[i] == bk[i];
                    }
                    let r = s % 8;
                    if r > 0 {
                        same &= (k[s / 8] ^ bk[s / 8]) >> (8 - r) == 0;
                    }
                    check(same, "a key below a branch disagrees with the key of the branch before its split index");
                }
            }
            out.extend(zero);
            out.extend(one);
        }
        NodeVariant::Leaf(l) => {
            match map.get(l.get_data()).map(|d| d.clone().get_variant()) {
                Some(NodeVariant::Data(_)) => {}
                _ => fail("a leaf without a data node"),
            }
            out.push((*l.get_key()).into());
        }
        _ => fail("a data node in place of a branch or leaf"),
    }
}
