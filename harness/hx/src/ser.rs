//! Encoding and decoding of nodes, in whichever format the configuration selects.
use crate::sym::*;
use crate::world::arr;
use starling::traits::{Branch, Data, Decode, Encode, Leaf, Node, NodeVariant};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::Array;

/// The numbers a format is asked to carry.
#[cfg(feature = "pickle")]
const MOST: u64 = i64::MAX as u64;
#[cfg(not(feature = "pickle"))]
const MOST: u64 = u64::MAX;

fn number() -> u64 {
    let n = u64_any();
    assume(n <= MOST);
    n
}

/// A number from which the text formats make a bounded number of paths.
fn some_number() -> u64 {
    const C: [u64; 14] = [0, 9, 10, 127, 128, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296, MOST / 10, MOST - 1, MOST];
    let i = choose(C.len() + 1);
    if i < C.len() {
        C[i]
    } else {
        u64::from(byte())
    }
}

fn leaf_of<const N: usize>(k: [u8; N], d: [u8; N]) -> TreeLeaf<N> {
    let mut l = TreeLeaf::new();
    l.set_key(arr(k));
    l.set_data(arr(d));
    l
}

fn branch_of<const N: usize>(count: u64, zero: [u8; N], one: [u8; N], split: usize, key: [u8; N]) -> TreeBranch<N> {
    let mut b = TreeBranch::new();
    b.set_count(count);
    b.set_zero(arr(zero));
    b.set_one(arr(one));
    b.set_split_index(split);
    b.set_key(arr(key));
    b
}

fn data_of(v: &[u8]) -> TreeData {
    let mut d = TreeData::new();
    d.set_value(v);
    d
}

fn node_of<const N: usize>(refs: u64, v: NodeVariant<TreeBranch<N>, TreeLeaf<N>, TreeData, N>) -> TreeNode<N> {
    let mut n = TreeNode::new(v);
    n.set_references(refs);
    n
}

fn same_leaf<const N: usize>(a: &TreeLeaf<N>, b: &TreeLeaf<N>) -> bool {
    a.get_key()[..] == b.get_key()[..] && a.get_data()[..] == b.get_data()[..]
}

fn same_branch<const N: usize>(a: &TreeBranch<N>, b: &TreeBranch<N>) -> bool {
    a.get_count() == b.get_count()
        && a.get_split_index() == b.get_split_index()
        && a.get_zero()[..] == b.get_zero()[..]
        && a.get_one()[..] == b.get_one()[..]
        && a.get_key()[..] == b.get_key()[..]
}

fn same_node<const N: usize>(a: &TreeNode<N>, b: &TreeNode<N>) -> bool {
    a.references == b.references
        && match (&a.node, &b.node) {
            (NodeVariant::Branch(x), NodeVariant::Branch(y)) => same_branch(x, y),
            (NodeVariant::Leaf(x), NodeVariant::Leaf(y)) => same_leaf(x, y),
            (NodeVariant::Data(x), NodeVariant::Data(y)) => x.get_value() == y.get_value(),
            _ => false,
        }
}

fn back<T: Encode + Decode>(x: &T, same: impl Fn(&T, &T) -> bool) -> Vec<u8> {
    match x.encode() {
        Ok(e) => {
            match T::decode(&e) {
                Ok(y) => check(same(x, &y), "decoding gives something else than was encoded"),
                Err(_) => fail("what was encoded cannot be decoded"),
            }
            e
        }
        Err(_) => {
            fail("encoding fails");
            Vec::new()
        }
    }
}

/// Some bytes of an array free, the others fixed and different from each other.
fn some<const N: usize>(free: usize, salt: u8) -> [u8; N] {
    let mut a = [0u8; N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = if i < free { byte() } else { (i as u8).wrapping_mul(37) ^ salt };
    }
    a
}

/// Leaves and branches on their own and within a node; `free` bytes of one of their arrays are free at a time.
pub fn parts<const N: usize>(free: usize) {
    let which = choose(5);
    let f = |i: usize, salt: u8| some::<N>(if i == which { free } else { 0 }, salt);
    if which < 2 {
        let l = leaf_of(f(0, 0xa5), f(1, 0x3c));
        back(&l, same_leaf);
        back(&node_of(1, NodeVariant::Leaf(l)), same_node);
        tag("leaf");
    } else {
        let b = branch_of(3, f(2, 0x11), f(3, 0xc7), 5, f(4, 0x80));
        back(&b, same_branch);
        back(&node_of(1, NodeVariant::Branch(b)), same_node);
        tag("branch");
    }
}

/// The numbers of a branch and the reference count.
pub fn numbers<const N: usize>() {
    let (mut count, mut split, mut refs) = (2, 7, 1);
    match choose(3) {
        0 => count = some_number(),
        1 => split = some_number() as usize,
        _ => refs = some_number(),
    }
    let b = branch_of(count, some::<N>(0, 1), some::<N>(0, 2), split, some::<N>(0, 3));
    back(&b, same_branch);
    back(&node_of(refs, NodeVariant::Branch(b)), same_node);
    back(&node_of(refs, NodeVariant::Leaf(leaf_of(some::<N>(0, 1), some::<N>(0, 2)))), same_node);
    back(&node_of::<N>(refs, NodeVariant::Data(data_of(&[1, 2]))), same_node);
}

/// Everything free at once (for the binary formats).
pub fn all_free<const N: usize>(value: usize) {
    match choose(4) {
        0 => {
            let l = leaf_of::<N>(bytes(), bytes());
            back(&l, same_leaf);
            back(&node_of(number(), NodeVariant::Leaf(l)), same_node);
        }
        1 => {
            let b = branch_of::<N>(number(), bytes(), bytes(), number() as usize, bytes());
            back(&b, same_branch);
            back(&node_of(number(), NodeVariant::Branch(b)), same_node);
        }
        2 => {
            let d = data_of(&vec(choose(value + 1)));
            back(&d, |x, y| x.get_value() == y.get_value());
            back(&node_of::<N>(number(), NodeVariant::Data(d)), same_node);
        }
        _ => {
            let v = vec(choose(value + 1));
            let e = back(&v, |x, y| x == y);
            check(e == v, "a byte string is not its own encoding");
        }
    }
}

/// Values: the first `free` bytes free.
pub fn value(lengths: &[usize], free: usize) {
    let n = lengths[choose(lengths.len())];
    let v: Vec<u8> = (0..n).map(|i| if i < free { byte() } else { i as u8 ^ 0x5a }).collect();
    let d = data_of(&v);
    back(&d, |x, y| x.get_value() == y.get_value());
    back(&node_of::<2>(1, NodeVariant::Data(d)), same_node);
    let e = back(&v, |x, y| x == y);
    check(e == v, "a byte string is not its own encoding");
}

/// Two arbitrary nodes with the same encoding are the same node.
pub fn distinct<const N: usize>(value: usize) {
    let one = || match choose(3) {
        0 => node_of(number(), NodeVariant::Leaf(leaf_of::<N>(bytes(), bytes()))),
        1 => node_of(number(), NodeVariant::Branch(branch_of::<N>(number(), bytes(), bytes(), number() as usize, bytes()))),
        _ => node_of(number(), NodeVariant::Data(data_of(&vec(choose(value + 1))))),
    };
    let (a, b) = (one(), one());
    if let (Ok(x), Ok(y)) = (a.encode(), b.encode()) {
        if x == y {
            cover("equal encodings");
            check(same_node(&a, &b), "different nodes have the same encoding");
            check(a == b, "equal nodes are not equal");
        }
    }
}

/// Every byte string of up to `max` bytes, at every one of the five types.
pub fn bytes_any<const N: usize>(max: usize, whole: bool) {
    let n = choose(max + 1);
    let v = vec(n);
    look::<N>(&v, whole);
}

/// An encoding under which a decoded thing is found again: `whole` formats read all of the input and in
/// one way only.
fn look<const N: usize>(v: &[u8], exact: bool) {
    match choose(5) {
        0 => again(v, exact, TreeNode::<N>::decode(v).ok(), same_node),
        1 => again(v, exact, TreeBranch::<N>::decode(v).ok(), same_branch),
        2 => again(v, exact, TreeLeaf::<N>::decode(v).ok(), same_leaf),
        3 => again(v, exact, TreeData::decode(v).ok(), |x, y| x.get_value() == y.get_value()),
        _ => match Vec::<u8>::decode(v) {
            Ok(x) => check(x == v, "a byte string does not decode to itself"),
            Err(_) => fail("a byte string cannot be decoded"),
        },
    }
}

fn again<T: Encode + Decode>(v: &[u8], exact: bool, x: Option<T>, same: impl Fn(&T, &T) -> bool) {
    if let Some(x) = x {
        cover("a node");
        let e = back(&x, same);
        if exact {
            check(e.len() <= v.len() && e[..] == v[..e.len()], "decoding invents what the bytes do not say");
        }
    } else {
        cover("an error");
    }
}

fn sample<const N: usize>(kind: usize) -> TreeNode<N> {
    node_of(1, match kind {
        0 => NodeVariant::Leaf(leaf_of(some::<N>(0, 0xa5), some::<N>(0, 0x3c))),
        1 => NodeVariant::Branch(branch_of(3, some::<N>(0, 1), some::<N>(0, 2), 5, some::<N>(0, 3))),
        _ => NodeVariant::Data(data_of(&[200, 3])),
    })
}

/// Encoded nodes with `n` neighbouring bytes replaced by free ones.
pub fn damaged<const N: usize>(kind: usize, n: usize) {
    if let Ok(mut e) = sample::<N>(kind).encode() {
        assume(e.len() < 250);
        let at = choose(e.len() + 1 - n);
        for x in &mut e[at..at + n] {
            *x = byte();
        }
        node_or_error::<N>(&e);
    }
}

/// Encoded nodes cut off anywhere and continued by up to `n` free bytes.
pub fn cut<const N: usize>(kind: usize, n: usize) {
    if let Ok(mut e) = sample::<N>(kind).encode() {
        assume(e.len() < 250);
        let at = choose(e.len() + 1);
        e.truncate(at);
        let k = choose(n + 1);
        for _ in 0..k {
            e.push(byte());
        }
        node_or_error::<N>(&e);
    }
}

fn node_or_error<const N: usize>(e: &[u8]) {
    match TreeNode::<N>::decode(e) {
        Ok(x) => {
            cover("a node");
            back(&x, same_node);
        }
        Err(_) => cover("an error"),
    }
}

/// Every proper prefix of every encoded node (bincode).
pub fn prefix<const N: usize>(value: usize) {
    let node = match choose(3) {
        0 => node_of(number(), NodeVariant::Leaf(leaf_of::<N>(bytes(), bytes()))),
        1 => node_of(number(), NodeVariant::Branch(branch_of::<N>(number(), bytes(), bytes(), number() as usize, bytes()))),
        _ => node_of(number(), NodeVariant::Data(data_of(&vec(choose(value + 1))))),
    };
    if let Ok(e) = node.encode() {
        assume(e.len() < 250);
        let at = choose(e.len());
        check(TreeNode::<N>::decode(&e[..at]).is_err(), "a proper prefix of an encoded node is accepted");
    }
}

/// Keys and locations of another length, in every place where there is one.
pub fn wrong_length<const M: usize, const N: usize>() {
    let l = leaf_of::<M>(some(1, 1), some(0, 2));
    let b = branch_of::<M>(1, some(1, 1), some(0, 2), 0, some(0, 3));
    if let Ok(e) = l.encode() {
        check(TreeLeaf::<N>::decode(&e).is_err(), "a leaf with keys of another length is accepted");
    }
    if let Ok(e) = b.encode() {
        check(TreeBranch::<N>::decode(&e).is_err(), "a branch with keys of another length is accepted");
    }
    if let Ok(e) = node_of(1, NodeVariant::Leaf(l)).encode() {
        check(TreeNode::<N>::decode(&e).is_err(), "a node with keys of another length is accepted");
    }
    if let Ok(e) = node_of(1, NodeVariant::Branch(b)).encode() {
        check(TreeNode::<N>::decode(&e).is_err(), "a node with keys of another length is accepted");
    }
}

/// Keys and locations given as strings of bytes rather than as sequences of numbers.
#[cfg(any(feature = "pickle", feature = "cbor"))]
pub fn as_bytes<const N: usize>() {
    let lens = [choose(N + 2), choose(N + 2)];
    let parts = [vec(lens[0]), vec(lens[1])];
    let mut e: Vec<u8> = Vec::new();
    #[cfg(feature = "pickle")]
    {
        e.extend(b"\x80\x03}(");
        for (name, part) in [&b"key"[..], b"data"].iter().zip(&parts) {
            e.extend([b'X', name.len() as u8, 0, 0, 0]);
            e.extend(*name);
            e.extend([b'C', part.len() as u8]);
            e.extend(part);
        }
        e.extend(b"u.");
    }
    #[cfg(feature = "cbor")]
    {
        e.push(0xa2);
        for (name, part) in [&b"key"[..], b"data"].iter().zip(&parts) {
            e.push(0x60 + name.len() as u8);
            e.extend(*name);
            e.push(0x40 + part.len() as u8);
            e.extend(part);
        }
    }
    match TreeLeaf::<N>::decode(&e) {
        Ok(l) => {
            cover("a leaf");
            check(lens == [N, N], "a leaf with keys of another length is accepted");
            check(l.get_key()[..] == parts[0][..] && l.get_data()[..] == parts[1][..], "a leaf is decoded to something else");
        }
        Err(_) => {
            cover("an error");
            check(lens != [N, N], "a leaf is refused");
        }
    }
}
