//! Storage that fails, and storage that returns anything.
use crate::hist::{self, Opt, BASE};
use crate::sym::*;
use crate::world::*;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Branch, Data, Database, Exception, Leaf, Node, NodeVariant};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::cell::{Cell, RefCell};
use std::path::Path;
use std::rc::Rc;

/// Counts storage operations and fails one of them.
#[derive(Default)]
pub struct Fuse {
    pub armed: Cell<bool>,
    pub count: Cell<u64>,
    pub fail_at: Cell<u64>,
    pub fired: Cell<bool>,
    /// queued inserts become visible with `batch_write` only
    pub queue: Cell<bool>,
}

pub struct FaultDB<const N: usize> {
    map: HashMap<Array<N>, TreeNode<N>>,
    pending: Vec<(Array<N>, TreeNode<N>)>,
    fuse: Rc<Fuse>,
}

impl<const N: usize> FaultDB<N> {
    pub fn new(fuse: Rc<Fuse>) -> Self {
        Self { map: HashMap::new(), pending: Vec::new(), fuse }
    }
    fn op(&self) -> Result<(), Exception> {
        if self.fuse.armed.get() {
            let c = self.fuse.count.get();
            self.fuse.count.set(c + 1);
            if c == self.fuse.fail_at.get() {
                self.fuse.fired.set(true);
                return Err(Exception::new("storage fault"));
            }
        }
        Ok(())
    }
}

impl<const N: usize> Database<N, TreeNode<N>> for FaultDB<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        Err(Exception::new("not used"))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        self.op()?;
        Ok(self.map.get(&key).cloned())
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        self.op()?;
        if self.fuse.queue.get() {
            self.pending.push((key, node));
        } else {
            self.map.insert(key, node);
        }
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        self.op()?;
        self.map.remove(key);
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        self.op()?;
        for (k, n) in self.pending.drain(..) {
            self.map.insert(k, n);
        }
        Ok(())
    }
}

pub struct FaultTree;
impl<const N: usize> MerkleTree<N> for FaultTree {
    type Database = FaultDB<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}

/// A history, then one call during which one storage operation fails, then reads of every root, then
/// the removal of all of them with reads in between.
pub fn fault<const N: usize>(ops: usize, keys: Vec<[u8; N]>, retry: bool, queue: bool) {
    let pool = keys.len();
    let fuse: Rc<Fuse> = Rc::new(Fuse::default());
    fuse.queue.set(queue);
    let mut w: World<N, FaultTree> = World::over(FaultDB::new(fuse.clone()), N * 8, keys);
    let o = Opt { removal: true, few_sets: pool > 2, ..BASE };
    let n = 1 + choose(ops);
    for i in 0..n {
        hist::step(&mut w, i == 0, &o);
    }
    let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
    if live.is_empty() {
        return;
    }
    let h = live[choose(live.len())];
    let loc = w.handles[h].loc;
    let keys: Vec<Array<N>> = w.keys.iter().map(|k| arr(*k)).collect();
    let v = byte();
    let i = choose(pool);
    let kind = choose(7);
    fuse.fail_at.set(u64::from(byte()));
    fuse.armed.set(true);
    let msg = "a storage fault was not reported";
    let mut tag_removed = false;
    match kind {
        0 => {
            let r = w.t().get(&loc, &mut keys.clone());
            check(r.is_err() == fuse.fired.get(), msg);
        }
        1 => {
            let r = w.t().get_one(&loc, &keys[i]);
            check(r.is_err() == fuse.fired.get(), msg);
        }
        2 => {
            let r = w.t().generate_inclusion_proof(&loc, keys[i]);
            let stored = w.handles[h].map[i].is_some();
            check(!fuse.fired.get() || r.is_err(), msg);
            check(fuse.fired.get() || r.is_ok() == stored, "proof generation failed without a fault");
        }
        3 => {
            let r = w.t().remove(&loc);
            check(r.is_err() == fuse.fired.get(), msg);
            w.handles[h].live = false;
            tag_removed = true;
        }
        _ => {
            let vals: Vec<Val> = (0..pool).map(|i| vec![v, i as u8]).collect();
            let (r, mut map) = if kind == 4 {
                let prev = if choose(2) == 0 { None } else { Some(&loc) };
                let mut map = vec![None; pool];
                if prev.is_some() {
                    map = w.handles[h].map.clone();
                }
                for (x, v) in vals.iter().enumerate() {
                    map[x] = Some(v.clone());
                }
                (w.t().insert(prev, &mut keys.clone(), &vals), map)
            } else if kind == 5 {
                let mut map = w.handles[h].map.clone();
                map[i] = Some(vals[i].clone());
                (w.t().insert_one(Some(&loc), &keys[i], &vals[i]), map)
            } else {
                let mut map = vec![None; pool];
                map[i] = Some(vals[i].clone());
                (w.t().insert(None, &mut [keys[i]], &[vals[i].clone()]), map)
            };
            check(r.is_err() == fuse.fired.get(), msg);
            if let Ok(loc) = r {
                w.handles.push(Handle { loc, map: std::mem::take(&mut map), live: true });
            } else if retry {
                // once more, without the fault
                fuse.armed.set(false);
                let prev = w.handles[h].loc;
                if let Ok(loc) = w.t().insert(Some(&prev), &mut [keys[i]], &[vals[i].clone()]) {
                    let mut map = w.handles[h].map.clone();
                    map[i] = Some(vals[i].clone());
                    w.handles.push(Handle { loc, map, live: true });
                } else {
                    fail("an insert after a fault failed");
                }
            }
        }
    }
    fuse.armed.set(false);
    if fuse.fired.get() {
        cover("fault");
    } else {
        cover("no fault");
    }
    let _ = tag_removed;
    let m = "a storage fault changed what a root returns";
    w.check_reads(m, m);
    // now the rest goes, one by one
    let mut order: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
    if order.len() > 1 && choose(2) == 1 {
        order.reverse();
    }
    for h in order {
        w.remove(h);
        let m = "after a storage fault a removal changed what another root returns";
        w.check_reads(m, m);
    }
}

/// A database in which anything may be stored at a few locations.
pub struct AnyDB<const N: usize> {
    nodes: Rc<RefCell<Vec<Slot<N>>>>,
    pub reads: Cell<usize>,
    limit: usize,
}

/// What is stored at a location; `lazy` until it is read for the first time.
#[derive(Clone)]
pub struct Slot<const N: usize> {
    pub loc: Array<N>,
    pub node: Option<TreeNode<N>>,
    pub lazy: bool,
}

impl<const N: usize> AnyDB<N> {
    fn find(&self, key: &Array<N>) -> Option<usize> {
        let v = self.nodes.borrow();
        (0..v.len()).find(|i| v[*i].loc == *key)
    }
}

impl<const N: usize> Database<N, TreeNode<N>> for AnyDB<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        Err(Exception::new("not used"))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        self.reads.set(self.reads.get() + 1);
        check(self.reads.get() < self.limit, "an operation on a corrupt store does not end");
        if self.reads.get() >= self.limit {
            return Err(Exception::new("too long"));
        }
        match self.find(&key) {
            Some(i) => {
                let mut v = self.nodes.borrow_mut();
                if v[i].lazy {
                    v[i].lazy = false;
                    v[i].node = any_node();
                }
                Ok(v[i].node.clone())
            }
            None => Ok(None),
        }
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        match self.find(&key) {
            Some(i) => {
                let mut v = self.nodes.borrow_mut();
                v[i].node = Some(node);
                v[i].lazy = false;
            }
            None => self.nodes.borrow_mut().push(slot(key, Some(node))),
        }
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        if let Some(i) = self.find(key) {
            let mut v = self.nodes.borrow_mut();
            v[i].node = None;
            v[i].lazy = false;
        }
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        Ok(())
    }
}

pub struct AnyTree;
impl<const N: usize> MerkleTree<N> for AnyTree {
    type Database = AnyDB<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}

fn slot<const N: usize>(loc: Array<N>, node: Option<TreeNode<N>>) -> Slot<N> {
    Slot { loc, node, lazy: false }
}

fn any_array<const N: usize>() -> Array<N> {
    let a: [u8; N] = bytes();
    arr(a)
}

/// Any node: only its kind is split, its pointers, keys, split index and counters are unconstrained.
fn any_node<const N: usize>() -> Option<TreeNode<N>> {
    let mut n: TreeNode<N> = match choose(4) {
        0 => return None,
        1 => {
            let mut b = TreeBranch::new();
            b.set_zero(any_array());
            b.set_one(any_array());
            b.set_split_index(u64_any() as usize);
            b.set_key(any_array());
            // counts of real nodes are far from overflowing
            let c = u64_any();
            assume(c < 1 << 62);
            b.set_count(c);
            TreeNode::new(NodeVariant::Branch(b))
        }
        2 => {
            let mut l = TreeLeaf::new();
            l.set_key(any_array());
            l.set_data(any_array());
            TreeNode::new(NodeVariant::Leaf(l))
        }
        _ => {
            let mut d = TreeData::new();
            d.set_value(&[byte()]);
            TreeNode::new(NodeVariant::Data(d))
        }
    };
    let r = u64_any();
    assume(r < 1 << 62);
    n.set_references(r);
    Some(n)
}

fn any_store<const N: usize>(nodes: usize) -> Vec<Slot<N>> {
    (0..nodes).map(|i| Slot { loc: arr([0xE0 + i as u8; N]), node: None, lazy: true }).collect()
}

/// Whether the nodes hold `v` for a leaf with key `k`.
fn holds<const N: usize>(nodes: &[Slot<N>], k: &Array<N>, v: &Val) -> bool {
    for s in nodes {
        if let Some(NodeVariant::Leaf(l)) = s.node.clone().map(|n| n.get_variant()) {
            if l.get_key() == k {
                for d in nodes {
                    if d.loc == *l.get_data() {
                        if let Some(NodeVariant::Data(x)) = d.node.clone().map(|n| n.get_variant()) {
                            if x.get_value().len() == v.len() && x.get_value() == &v[..] {
                                return true;
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

/// One operation over an arbitrary store.
pub fn corrupt<const N: usize>(nodes: usize, depth: usize, nkeys: usize, op: usize) {
    let store = any_store::<N>(nodes);
    over::<N>(store, depth, nkeys, op);
}

/// A genuine tree in which one node is replaced by anything, or two locations are exchanged.
pub fn replaced<const N: usize>(pool: usize, pos: &[usize], op: usize) {
    let keys = keys_at::<N>(pool, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let data: Vec<(usize, Val)> = (0..pool).map(|i| (i, vec![i as u8])).collect();
    w.insert(None, &data);
    let root = w.handles[0].loc;
    let map = w.with_db(|m, _| m.clone());
    let mut slots: Vec<Slot<N>> = map.iter().map(|(k, n)| slot(*k, Some(n.clone()))).collect();
    slots.sort_by_key(|s| s.loc);
    // the root first
    let r = slots.iter().position(|s| s.loc == root).unwrap_or(0);
    slots.swap(0, r);
    let at = choose(slots.len());
    if choose(3) == 0 {
        let other = choose(slots.len());
        let n = slots[other].node.clone();
        slots[at].node = n;
    } else {
        slots[at].lazy = true;
    }
    over::<N>(slots, N * 8, pool.min(2), op);
}

fn over<const N: usize>(store: Vec<Slot<N>>, depth: usize, nkeys: usize, op: usize) {
    let root = store[0].loc;
    let limit = 2000;
    let shared = Rc::new(RefCell::new(store));
    let db = AnyDB { nodes: shared.clone(), reads: Cell::new(0), limit };
    let mut t: MerkleBIT<AnyTree, N> = match MerkleBIT::from_db(db, depth) {
        Ok(t) => t,
        Err(_) => return,
    };
    let raw = if nkeys == 1 { vec![bytes::<N>()] } else { keys_full::<N>(nkeys) };
    let keys: Vec<Array<N>> = raw.iter().map(|k| arr(*k)).collect();
    match op {
        0 => {
            for k in &keys {
                if let Ok(Some(v)) = t.get_one(&root, k) {
                    cover("value");
                    check(holds(&shared.borrow(), k, &v), "get_one returned a value no leaf of that key holds");
                }
            }
        }
        1 => match t.get(&root, &mut keys.clone()) {
            Ok(m) => {
                cover("answer");
                check(m.len() == keys.len(), "get did not answer for exactly the keys asked for");
                for k in &keys {
                    match m.get(k) {
                        Some(Some(v)) => {
                            cover("value");
                            check(holds(&shared.borrow(), k, v), "get returned a value no leaf of that key holds");
                        }
                        Some(None) => {}
                        None => fail("get left out a key"),
                    }
                }
            }
            Err(_) => cover("error"),
        },
        2 => {
            if let Ok(p) = t.generate_inclusion_proof(&root, keys[0]) {
                cover("proof");
                check(p.len() >= 2, "a proof without leaf and data");
            }
        }
        3 => {
            let _ = t.remove(&root);
            cover("removed");
        }
        4 => {
            let v: Vec<Val> = keys.iter().map(|_| vec![1]).collect();
            if t.insert(Some(&root), &mut keys.clone(), &v).is_ok() {
                cover("inserted");
            }
        }
        _ => {
            if t.insert_one(Some(&root), &keys[0], &vec![1]).is_ok() {
                cover("inserted");
            }
        }
    }
}

/// A data node where a branch or leaf belongs, and a split index beyond the key, are errors.
pub fn impossible<const N: usize>() {
    let locs: Vec<Array<N>> = (0..4).map(|i| arr([0xE0 + i as u8; N])).collect();
    let mut store: Vec<Slot<N>> = Vec::new();
    let mut d = TreeData::new();
    d.set_value(&[byte()]);
    let data: TreeNode<N> = TreeNode::new(NodeVariant::Data(d));
    let k: [u8; N] = bytes();
    let mut leaf = TreeLeaf::new();
    leaf.set_key(arr(k));
    leaf.set_data(locs[3]);
    let leafn: TreeNode<N> = TreeNode::new(NodeVariant::Leaf(leaf));
    let mut b = TreeBranch::new();
    b.set_zero(locs[1]);
    b.set_one(locs[1]);
    b.set_key(arr(k));
    b.set_count(2);
    let kind = choose(5);
    let s = u64_any();
    match kind {
        0 => {
            // data at the root
            store.push(slot(locs[0], Some(data.clone())));
        }
        1 => {
            // data below a branch
            assume(s < (N * 8) as u64);
            b.set_split_index(s as usize);
            store.push(slot(locs[0], Some(TreeNode::new(NodeVariant::Branch(b)))));
            store.push(slot(locs[1], Some(data.clone())));
        }
        2 => {
            // a split index beyond the key
            assume(s >= (N * 8) as u64);
            b.set_split_index(s as usize);
            store.push(slot(locs[0], Some(TreeNode::new(NodeVariant::Branch(b)))));
            store.push(slot(locs[1], Some(leafn.clone())));
            store.push(slot(locs[3], Some(data.clone())));
        }
        3 => {
            // a leaf below a leaf
            store.push(slot(locs[0], Some(leafn.clone())));
            store.push(slot(locs[3], Some(leafn.clone())));
        }
        _ => {
            // a branch below a leaf
            assume(s < (N * 8) as u64);
            b.set_split_index(s as usize);
            store.push(slot(locs[0], Some(leafn.clone())));
            store.push(slot(locs[3], Some(TreeNode::new(NodeVariant::Branch(b)))));
        }
    }
    let op = choose(4);
    let db = AnyDB { nodes: Rc::new(RefCell::new(store)), reads: Cell::new(0), limit: 200 };
    let mut t: MerkleBIT<AnyTree, N> = match MerkleBIT::from_db(db, N * 8) {
        Ok(t) => t,
        Err(_) => return,
    };
    let key = arr(k);
    let root = locs[0];
    let msg = "a structural impossibility was not reported as an error";
    match op {
        0 => check(t.get_one(&root, &key).is_err(), msg),
        1 => check(t.get(&root, &mut [key]).is_err(), msg),
        2 => check(t.generate_inclusion_proof(&root, key).is_err(), msg),
        _ => {
            // inserting the key does not look below its own leaf
            if kind < 3 {
                check(t.insert(Some(&root), &mut [key], &[vec![1]]).is_err(), msg);
            }
        }
    }
}
