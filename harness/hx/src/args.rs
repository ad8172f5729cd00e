//! Arguments: single against batch forms, order, bad calls, depth limits.
use crate::hist::{self, Opt, BASE};
use crate::sym::*;
use crate::world::*;
use starling::traits::{Branch, Leaf, Node, NodeVariant};
use starling::tree::tree_node::TreeNode;
use starling::Array;

type Map<const N: usize> = HashMap<Array<N>, TreeNode<N>>;

pub fn snapshot<const N: usize>(w: &mut World<N>) -> Map<N> {
    w.with_db(|m, _| m.clone())
}

pub fn same_store<const N: usize>(a: &Map<N>, b: &Map<N>, msg: &str) {
    check(a.len() == b.len(), msg);
    for (k, n) in a {
        match b.get(k) {
            Some(m) => check(n == m, msg),
            None => fail(msg),
        }
    }
}

/// The same history with `insert_one` and with one-element batches.
pub fn single_vs_batch<const N: usize>(ops: usize, keys: Vec<[u8; N]>) {
    let pool = keys.len();
    let mut a = World::<N>::new(N * 8, keys.clone());
    let mut b = World::<N>::new(N * 8, keys.clone());
    let n = 1 + choose(ops);
    for i in 0..n {
        let live: Vec<usize> = (0..a.handles.len()).filter(|i| a.handles[*i].live).collect();
        // insert of one key, on nothing or on a live root; or a batch of all; or a removal
        let ins = pool * (1 + live.len());
        let c = choose(ins + 1 + if i > 0 { live.len() } else { 0 });
        if c < ins {
            let prev = if c / pool == 0 { None } else { Some(live[c / pool - 1]) };
            let v = vec![byte()];
            a.insert(prev, &[(c % pool, v.clone())]);
            b.insert_one(prev, c % pool, &v);
        } else if c == ins {
            let v = byte();
            let set: Vec<(usize, Val)> = (0..pool).map(|i| (i, vec![v, i as u8])).collect();
            let prev = live.last().copied();
            a.insert(prev, &set);
            b.insert(prev, &set);
        } else {
            a.remove(live[c - ins - 1]);
            b.remove(live[c - ins - 1]);
        }
    }
    let last = a.handles.len() - 1;
    check(a.handles[last].loc == b.handles[last].loc, "insert_one and a one-element insert gave different roots");
    let (sa, sb) = (snapshot(&mut a), snapshot(&mut b));
    same_store(&sa, &sb, "insert_one and a one-element insert left different stores");
    reads_agree(&mut b, keys);
}

/// Values of special lengths, through the single and the batch forms.
pub fn values<const N: usize>(lens: &[usize]) {
    let keys = keys_at::<N>(2, &[0, N * 8 - 1]);
    let mut a = World::<N>::new(N * 8, keys.clone());
    let mut b = World::<N>::new(N * 8, keys.clone());
    let l = lens[choose(lens.len())];
    let mut v = vec![7; l];
    for i in 0..l {
        if i < 2 || i == l / 2 || i + 2 >= l {
            v[i] = byte();
        }
    }
    let (mut ra, mut rb) = (None, None);
    // alone, next to another key, in place of another value
    let on = choose(3);
    if on > 0 {
        let set = [(2 - on, vec![3])];
        ra = a.insert(None, &set);
        rb = b.insert(None, &set);
    }
    a.insert(ra, &[(0, v.clone())]);
    b.insert_one(rb, 0, &v);
    let last = a.handles.len() - 1;
    check(a.handles[last].loc == b.handles[last].loc, "insert_one and a one-element insert gave different roots");
    let (sa, sb) = (snapshot(&mut a), snapshot(&mut b));
    same_store(&sa, &sb, "insert_one and a one-element insert left different stores");
    reads_agree(&mut b, keys);
}

/// Single reads against batch reads, at every root, also removed ones, and for another key.
fn reads_agree<const N: usize>(b: &mut World<N>, mut ks: Vec<[u8; N]>) {
    ks.push([0x55; N]);
    for h in 0..b.handles.len() {
        let loc = b.handles[h].loc;
        let mut all: Vec<Array<N>> = ks.iter().map(|k| arr(*k)).collect();
        let m = b.t().get(&loc, &mut all);
        for k in &ks {
            let one = b.t().get_one(&loc, &arr(*k));
            let batch1 = b.t().get(&loc, &mut [arr(*k)]);
            match (&one, &batch1) {
                (Ok(x), Ok(y)) => {
                    match y.get(&arr(*k)) {
                        Some(y) => check_val(x, y, "get_one and get disagree"),
                        None => fail("get left out a key"),
                    }
                }
                (Err(_), Err(_)) => {}
                _ => fail("get_one and get disagree about an error"),
            }
            match (&one, &m) {
                (Ok(x), Ok(y)) => {
                    match y.get(&arr(*k)) {
                        Some(y) => check_val(x, y, "get_one and a larger get disagree"),
                        None => fail("get left out a key"),
                    }
                }
                (Err(_), Err(_)) => {}
                _ => fail("get_one and a larger get disagree about an error"),
            }
        }
    }
}

/// A batch on a previous root against its elements one after the other.
pub fn batch_vs_sequence<const N: usize>(keys: Vec<[u8; N]>, first: usize) {
    let pool = keys.len();
    let mut w = World::<N>::new(N * 8, keys);
    let mut base = None;
    let f: Vec<usize> = (0..first).map(|_| choose(pool)).collect();
    for i in &f {
        base = w.insert_one(base, *i, &vec![9]);
    }
    let sets = hist::sets(pool, false);
    let s = sets[choose(sets.len())].clone();
    let v = byte();
    let data: Vec<(usize, Val)> = s.iter().map(|i| (*i, vec![v, *i as u8])).collect();
    let whole = w.insert(base, &data);
    let mut r = base;
    for (i, v) in data.iter().rev() {
        r = w.insert_one(r, *i, v);
    }
    if let (Some(a), Some(b)) = (whole, r) {
        check(w.handles[a].loc == w.handles[b].loc, "a batch and its elements in sequence gave different roots");
        w.check_reads_at(a, "get after a batch", "get_one after a batch");
        w.check_reads_at(b, "get after a sequence", "get_one after a sequence");
    }
}

/// Keys in any order, on nothing and on a previous root.
pub fn order<const N: usize>(n: usize, pos: &[usize], prev: usize) {
    let sorted = keys_at::<N>(n + prev, pos);
    let mut w = World::<N>::new(N * 8, sorted.clone());
    let mut r = None;
    // which keys the previous root holds
    let mut held = Vec::new();
    if prev > 0 {
        let start = choose(n + prev);
        held = (0..prev).map(|i| (start + i) % (n + prev)).collect();
        let data: Vec<(usize, Val)> = held.iter().map(|i| (*i, vec![*i as u8, 7])).collect();
        r = w.insert(None, &data);
    }
    // overlap of at most one key with the previous content
    let mut rest: Vec<usize> = (0..n + prev).filter(|i| !held.contains(i)).collect();
    if prev > 0 && choose(2) == 1 {
        rest.push(held[0]);
        cover("overwrites");
    }
    // every permutation
    let mut perm = Vec::new();
    let mut left = rest;
    while !left.is_empty() {
        perm.push(left.remove(choose(left.len())));
    }
    let v = byte();
    let data: Vec<(usize, Val)> = perm.iter().map(|i| (*i, vec![v, *i as u8])).collect();
    let a = w.insert(r, &data);
    let mut asc = data;
    asc.sort_by_key(|x| x.0);
    let b = w.insert(r, &asc);
    if let (Some(a), Some(b)) = (a, b) {
        check(w.handles[a].loc == w.handles[b].loc, "the root depends on the order of the arguments");
        w.check_reads_at(a, "get after an insert in some order", "get_one after an insert in some order");
    }
}

/// Queries: any keys, in any order, with repetitions, stored or absent.
pub fn queries<const N: usize>(n: usize, q: usize, pos: &[usize]) {
    let keys = keys_at::<N>(n, pos);
    let mut w = World::<N>::new(N * 8, keys);
    let data: Vec<(usize, Val)> = (0..n).map(|i| (i, vec![i as u8])).collect();
    if n > 0 {
        w.insert(None, &data);
    } else {
        return;
    }
    let loc = w.handles[0].loc;
    match w.t().get(&loc, &mut []) {
        Ok(m) => check(m.is_empty(), "no keys asked for, but an answer given"),
        Err(_) => fail("asking for no keys is an error"),
    }
    let ks: Vec<[u8; N]> = (0..q).map(|_| key_at::<N>(pos)).collect();
    let mut asked: Vec<Array<N>> = ks.iter().map(|k| arr(*k)).collect();
    match w.t().get(&loc, &mut asked) {
        Err(_) => fail("get failed"),
        Ok(m) => {
            let mut distinct: Vec<[u8; N]> = Vec::new();
            for k in &ks {
                if !distinct.contains(k) {
                    distinct.push(*k);
                } else {
                    cover("repeated key");
                }
                let mut want = None;
                for (i, s) in w.keys.iter().enumerate() {
                    if s == k {
                        cover("stored key");
                        want = Some(vec![i as u8]);
                    }
                }
                match m.get(&arr(*k)) {
                    Some(got) => check_val(got, &want, "get gave a wrong answer for a mix of keys"),
                    None => fail("get left out a key"),
                }
            }
            check(m.len() == distinct.len(), "get answered for keys that were not asked for");
        }
    }
}

/// A large tree asked for many keys, one of them unconstrained in one byte, in scrambled order.
pub fn queries_large<const N: usize>(n: usize) {
    let mut keys: Vec<[u8; N]> = Vec::new();
    for i in 0..n {
        let mut k = [0u8; N];
        k[0] = (i * 7 % 256) as u8;
        k[N / 2] = (i * i % 251) as u8;
        k[N - 1] = (i % 3) as u8;
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    keys.sort_unstable();
    let n = keys.len();
    let mut w = World::<N>::new(N * 8, keys.clone());
    let data: Vec<(usize, Val)> = (0..n).map(|i| (i * 11 % n, vec![(i * 11 % n) as u8])).collect();
    let mut seen = vec![false; n];
    let data: Vec<(usize, Val)> = data.into_iter().filter(|x| !std::mem::replace(&mut seen[x.0], true)).collect();
    w.insert(None, &data);
    let mut s = keys[choose(3) * (n - 1) / 2];
    let which = [0, N / 2, N - 1][choose(3)];
    s[which] = byte();
    let mut ask: Vec<[u8; N]> = vec![s];
    for i in 0..n {
        if i % 3 != 1 {
            ask.insert(i * 5 % (ask.len() + 1), keys[i]);
        } else {
            let mut k = keys[i];
            k[N - 1] ^= 0x80;
            ask.insert(i * 3 % (ask.len() + 1), k);
        }
    }
    let loc = w.handles[0].loc;
    let mut asked: Vec<Array<N>> = ask.iter().map(|k| arr(*k)).collect();
    match w.t().get(&loc, &mut asked) {
        Err(_) => fail("get failed"),
        Ok(m) => {
            for k in &ask {
                let want = w.keys.iter().position(|x| x == k).and_then(|i| w.handles[0].map[i].clone());
                match m.get(&arr(*k)) {
                    Some(got) => check_val(got, &want, "get gave a wrong answer for a mix of keys"),
                    None => fail("get left out a key"),
                }
            }
        }
    }
}

/// A bad call at the end of a history.
pub fn bad_calls<const N: usize>(ops: usize, keys: Vec<[u8; N]>) {
    let pool = keys.len();
    let mut w = World::<N>::new(N * 8, keys);
    let o = Opt { removal: true, few_sets: true, any_prev: false, ..BASE };
    let n = choose(ops + 1);
    for i in 0..n {
        hist::step(&mut w, i == 0, &o);
    }
    let before = snapshot(&mut w);
    let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
    // some previous root or none
    let p = choose(1 + live.len());
    let prev: Option<Array<N>> = if p == 0 { None } else { Some(w.handles[live[p - 1]].loc) };
    let k: Vec<Array<N>> = w.keys.iter().map(|k| arr(*k)).collect();
    let v = vec![byte()];
    // a location at which nothing is stored
    let unknown: [u8; N] = bytes();
    let unknown = arr(unknown);
    let t = w.t();
    let msg = "a call with bad arguments was accepted";
    let c = choose(14);
    if (8..=12).contains(&c) {
        for x in before.keys() {
            assume(*x != unknown);
        }
    }
    match c {
        0 => check(t.insert(prev.as_ref(), &mut k.clone(), &[v.clone()]).is_err() || pool == 1, msg),
        1 => check(t.insert(prev.as_ref(), &mut k[..1].to_vec(), &[v.clone(), v.clone()]).is_err(), msg),
        2 => check(t.insert(prev.as_ref(), &mut [], &[]).is_err(), msg),
        3 => check(t.insert(prev.as_ref(), &mut [], &[v.clone()]).is_err(), msg),
        4 => check(t.insert(prev.as_ref(), &mut [k[0]], &[]).is_err(), msg),
        5 => {
            // a key twice with the same or different values
            check(t.insert(prev.as_ref(), &mut [k[0], k[0]], &[v.clone(), vec![byte()]]).is_err(), msg);
        }
        6 => {
            let mut a = k.clone();
            let at = choose(pool + 1);
            a.insert(at, k[choose(pool)]);
            let vals: Vec<Val> = (0..a.len()).map(|i| vec![i as u8]).collect();
            check(t.insert(prev.as_ref(), &mut a, &vals).is_err(), msg);
        }
        7 => {
            // twice the same pair, everything else fine
            let mut a = k.clone();
            a.push(k[pool - 1]);
            let vals: Vec<Val> = vec![v.clone(); a.len()];
            check(t.insert(prev.as_ref(), &mut a, &vals).is_err(), msg);
        }
        8 => check(t.insert(Some(&unknown), &mut k.clone(), &vec![v.clone(); pool]).is_err(), msg),
        9 => check(t.insert(Some(&unknown), &mut [k[choose(pool)]], &[v.clone()]).is_err(), msg),
        10 => check(t.insert_one(Some(&unknown), &k[choose(pool)], &v).is_err(), msg),
        11 => {
            check(t.generate_inclusion_proof(&unknown, k[0]).is_err(), "a proof was generated for an unknown root");
            match t.get_one(&unknown, &k[0]) {
                Ok(None) => {}
                _ => fail("reading an unknown root did not report the key absent"),
            }
            match t.get(&unknown, &mut k.clone()) {
                Ok(m) => {
                    check(m.len() == pool, "reading an unknown root did not answer for every key");
                    for x in &k {
                        check(matches!(m.get(x), Some(None)), "reading an unknown root did not report the key absent");
                    }
                }
                Err(_) => fail("reading an unknown root failed"),
            }
        }
        12 => check(t.remove(&unknown).is_ok(), "removing an unknown root failed"),
        _ => {
            // the same with a removed root: nothing is stored there unless it is still part of another
            let dead: Vec<usize> = (0..w.handles.len()).filter(|i| !w.handles[*i].live).collect();
            if !dead.is_empty() {
                let loc = w.handles[dead[choose(dead.len())]].loc;
                if !before.contains_key(&loc) {
                    cover("removed root");
                    let t = w.t();
                    check(t.insert(Some(&loc), &mut k.clone(), &vec![v.clone(); pool]).is_err(), msg);
                    check(t.insert_one(Some(&loc), &k[0], &v).is_err(), msg);
                    check(t.generate_inclusion_proof(&loc, k[0]).is_err(), msg);
                    check(t.remove(&loc).is_ok(), "removing a removed root failed");
                }
            }
        }
    }
    let after = snapshot(&mut w);
    same_store(&before, &after, "a rejected call changed the store");
}

/// Number of branches above the leaf of `k`.
fn depth_of<const N: usize>(m: &Map<N>, root: &Array<N>, k: &[u8; N]) -> Option<usize> {
    let mut loc = *root;
    let mut d = 0;
    loop {
        match m.get(&loc).map(|n| n.clone().get_variant()) {
            Some(NodeVariant::Branch(b)) => {
                let s = b.get_split_index();
                if s >= N * 8 || d > N * 8 {
                    return None;
                }
                loc = if bit(k, s) == 0 { *b.get_zero() } else { *b.get_one() };
                d += 1;
            }
            Some(NodeVariant::Leaf(l)) => {
                return if *l.get_key() == arr(*k) { Some(d) } else { None };
            }
            _ => return None,
        }
    }
}

/// A tree over the given keys, then every operation under every limit.
pub fn depth_limits<const N: usize>(keys: Vec<[u8; N]>, stored: usize, limits: &[usize]) {
    let pool = keys.len();
    let mut w = World::<N>::new(N * 8, keys);
    // the stored keys are all but some: every choice
    let mut out: Vec<usize> = (0..pool).collect();
    while out.len() > stored {
        out.remove(choose(out.len()));
    }
    let data: Vec<(usize, Val)> = out.iter().map(|i| (*i, vec![*i as u8])).collect();
    w.insert(None, &data);
    let limit = limits[choose(limits.len())];
    let snap = snapshot(&mut w);
    let root = w.handles[0].loc;
    let depths: Vec<Option<usize>> = w.keys.iter().map(|k| depth_of(&snap, &root, k)).collect();
    let deepest = depths.iter().flatten().max().copied().unwrap_or(0);
    // the same store under the limit
    w.depth = limit;
    if let Some(t) = w.tree.take() {
        let (db, _) = t.decompose();
        w.tree = Tree::from_db(db, limit).ok().map(Any::Bare);
    }
    let pool_keys = w.keys.clone();
    for (i, k) in pool_keys.iter().enumerate() {
        let want = w.handles[0].map[i].clone();
        let reach = depths[i].map(|d| d <= limit);
        let one = w.t().get_one(&root, &arr(*k));
        let many = w.t().get(&root, &mut [arr(*k)]);
        let proof = w.t().generate_inclusion_proof(&root, arr(*k));
        match reach {
            Some(true) => {
                cover("within the limit");
                match &one {
                    Ok(v) => check_val(v, &want, "get_one under a depth limit gave a wrong answer"),
                    Err(_) => fail("get_one failed for a leaf within the limit"),
                }
                match &many {
                    Ok(m) => match m.get(&arr(*k)) {
                        Some(v) => check_val(v, &want, "get under a depth limit gave a wrong answer"),
                        None => fail("get left out a key"),
                    },
                    Err(_) => fail("get failed for a leaf within the limit"),
                }
                match &proof {
                    Ok(p) => check(
                        Tree::<N>::verify_inclusion_proof(&root, arr(*k), &want.clone().unwrap_or_default(), p).is_ok(),
                        "a proof within the limit is not accepted",
                    ),
                    Err(_) => fail("no proof for a leaf within the limit"),
                }
            }
            Some(false) => {
                cover("beyond the limit");
                check(one.is_err(), "get_one ignored the depth limit");
                check(many.is_err(), "get ignored the depth limit");
                check(proof.is_err(), "generate_inclusion_proof ignored the depth limit");
            }
            None => {
                // an absent key: absent, or an error because of the limit
                if let Ok(v) = &one {
                    check(v.is_none(), "get_one invented a value");
                } else {
                    check(limit < deepest, "get_one failed although the limit is not exceeded");
                }
                if let Ok(m) = &many {
                    check(matches!(m.get(&arr(*k)), Some(None)), "get invented a value");
                } else {
                    check(limit < deepest, "get failed although the limit is not exceeded");
                }
                check(proof.is_err(), "a proof for an absent key");
                check(one.is_err() == many.is_err(), "get and get_one disagree about the limit");
            }
        }
    }
    // all keys at once
    let mut all: Vec<Array<N>> = pool_keys.iter().map(|k| arr(*k)).collect();
    match w.t().get(&root, &mut all) {
        Ok(m) => {
            check(deepest <= limit, "get of all keys ignored the depth limit");
            for (i, k) in pool_keys.iter().enumerate() {
                match m.get(&arr(*k)) {
                    Some(v) => check_val(v, &w.handles[0].map[i], "get under a depth limit gave a wrong answer"),
                    None => fail("get left out a key"),
                }
            }
        }
        Err(_) => check(limit < deepest, "get of all keys failed although the limit is not exceeded"),
    }
    // an insert on the previous root, single or batch, new or existing key
    let i = choose(pool);
    let v = vec![byte(), 1];
    let k = pool_keys[i];
    let r = if choose(2) == 0 {
        w.t().insert_one(Some(&root), &arr(k), &v)
    } else {
        w.t().insert(Some(&root), &mut [arr(k)], &[v.clone()])
    };
    match (&r, depths[i]) {
        (Ok(_), Some(d)) => check(d <= limit, "insert ignored the depth limit"),
        (Err(_), Some(d)) => check(d > limit, "insert failed for a leaf within the limit"),
        (Err(_), None) => check(limit < deepest, "insert failed although the limit is not exceeded"),
        (Ok(_), None) => {}
    }
    // the contents, seen without a limit
    w.depth = N * 8;
    if let Some(t) = w.tree.take() {
        let (db, _) = t.decompose();
        w.tree = Tree::from_db(db, N * 8).ok().map(Any::Bare);
    }
    if let Ok(loc) = r {
        let mut map = w.handles[0].map.clone();
        map[i] = Some(v);
        w.handles.push(Handle { loc, map, live: true });
    }
    w.check_reads("an insert under a depth limit falsified a root", "an insert under a depth limit falsified a root");
}

/// The deepest tree there is: one key per bit position, and a limit of exactly that many bits.
pub fn full_depth<const N: usize>(extra: usize) {
    let mut keys: Vec<[u8; N]> = vec![[0; N]];
    for i in 0..N * 8 {
        let mut k = [0; N];
        k[i / 8] |= 0x80 >> (i % 8);
        keys.push(k);
    }
    let limit = [N * 8, N * 8 + 1, usize::MAX][choose(3)];
    let n = keys.len();
    let mut w = World::<N>::new(limit, keys);
    let all: Vec<(usize, Val)> = (0..n).map(|i| (i, vec![i as u8])).collect();
    let mut r = w.insert(None, &all);
    for _ in 0..extra {
        let i = [0, 1, n / 2, n - 1][choose(4)];
        r = w.insert_one(r, i, &vec![byte(), 3]);
    }
    if let Some(h) = r {
        w.check_reads_at(h, "get failed under a sufficient limit", "get_one failed under a sufficient limit");
    }
    w.check_proofs("no proof under a sufficient limit", "proof of an absent key");
}
