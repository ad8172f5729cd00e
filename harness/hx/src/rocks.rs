//! The tree on RocksDB (a stand-in for the database itself) beside the tree in memory.
use crate::hist::sets;
use crate::sym::*;
use crate::world::*;
use rocksdb_crate as rocksdb;
use starling::hash_tree::HashTree;
use starling::rocks_tree::RocksTree;
use starling::traits::{Database, Exception};
use starling::tree_db::rocksdb::RocksDB;
use starling::Array;
use std::path::Path;

type Rocks<const N: usize> = RocksTree<N, Val>;
const PATH: &str = "store";

fn open<const N: usize>(depth: usize) -> Option<Rocks<N>> {
    match Rocks::<N>::open(Path::new(PATH), depth) {
        Ok(t) => Some(t),
        Err(_) => {
            fail("the database cannot be opened");
            None
        }
    }
}

/// The database through `from_db` and `decompose` instead.
fn handed<const N: usize>(old: Option<Rocks<N>>, depth: usize) -> Option<Rocks<N>> {
    let (db, d) = old?.decompose();
    check(d == depth, "decompose changed the depth");
    let db = RocksDB::<N>::new(db.decompose());
    Rocks::<N>::from_db(db, d).ok()
}

fn same<T: PartialEq>(a: &Result<T, Exception>, b: &Result<T, Exception>, msg: &str) {
    match (a, b) {
        (Ok(x), Ok(y)) => check(x == y, msg),
        (Err(_), Err(_)) => {}
        _ => fail(msg),
    }
}

/// Histories of up to `ops` operations run on both.
pub fn twin<const N: usize>(ops: usize, p: usize, pos: &[usize], depth: usize, few: bool, plain: bool) {
    rocksdb::reset();
    let keys = keys_at::<N>(p, pos);
    let mut rocks = open::<N>(depth);
    let mut mem = match HashTree::<N>::open(Path::new("unused"), depth) {
        Ok(t) => t,
        Err(_) => return fail("the tree in memory cannot be opened"),
    };
    let mut roots: Vec<(Array<N>, bool)> = Vec::new();
    let mut refused = false;
    let n = 1 + choose(ops);
    for i in 0..n {
        let live: Vec<usize> = (0..roots.len()).filter(|i| roots[*i].1).collect();
        let sets = sets(p, few);
        let prevs = 1 + live.len();
        let inserts = sets.len() * prevs;
        let c = choose(inserts + live.len());
        let r = match rocks.as_mut() {
            Some(r) => r,
            None => return fail("no tree"),
        };
        if c >= inserts {
            cover("removal");
            tag("remove");
            let h = live[c - inserts];
            let loc = roots[h].0;
            same(&r.remove(&loc), &mem.remove(&loc), "remove differs from the tree in memory");
            roots[h].1 = false;
        } else {
            let set = &sets[c % sets.len()];
            let prev = match c / sets.len() {
                0 => None,
                h => Some(roots[live[h - 1]].0),
            };
            if prev.is_some() {
                cover("insert on a previous root");
            }
            let v = byte();
            let (a, b);
            if !plain && set.len() == 1 && choose(2) == 1 {
                tag("insert_one");
                let k = arr(keys[set[0]]);
                let v: Val = vec![v, set[0] as u8];
                a = r.insert_one(prev.as_ref(), &k, &v);
                b = mem.insert_one(prev.as_ref(), &k, &v);
            } else {
                tag("insert");
                let ks: Vec<Array<N>> = set.iter().map(|i| arr(keys[*i])).collect();
                let vs: Vec<Val> = set.iter().map(|i| vec![v, *i as u8]).collect();
                a = r.insert(prev.as_ref(), &mut ks.clone(), &vs);
                b = mem.insert(prev.as_ref(), &mut ks.clone(), &vs);
            }
            same(&a, &b, "insert differs from the tree in memory");
            match a {
                Ok(loc) => {
                    observe(&loc[..]);
                    roots.push((loc, true));
                }
                Err(_) => {
                    refused = true;
                    cover("refused");
                }
            }
        }
        // between operations, and before the comparison: nothing, closed and opened again, or taken apart
        match choose(if plain { 1 } else if i + 1 == n { 3 } else { 2 }) {
            0 => {}
            1 => {
                cover("reopened");
                tag("reopen");
                drop(rocks.take());
                rocks = open::<N>(depth);
            }
            _ => rocks = handed(rocks.take(), depth),
        }
    }
    let r = match rocks.as_ref() {
        Some(r) => r,
        None => return fail("no tree"),
    };
    for (loc, live) in &roots {
        // a refused insert may leave counts too high, which only shows at removed roots
        if refused && !live {
            continue;
        }
        let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
        match (r.get(loc, &mut ks.clone()), mem.get(loc, &mut ks)) {
            (Ok(a), Ok(b)) => {
                check(a.len() == b.len(), "get differs from the tree in memory");
                for k in &ks {
                    match (a.get(k), b.get(k)) {
                        (Some(x), Some(y)) => check_val(x, y, "get differs from the tree in memory"),
                        (None, None) => {}
                        _ => fail("get differs from the tree in memory"),
                    }
                }
            }
            (Err(_), Err(_)) => {}
            _ => fail("get differs from the tree in memory"),
        }
        for k in &ks {
            same(&r.get_one(loc, k), &mem.get_one(loc, k), "get_one differs from the tree in memory");
            let (a, b) = (r.generate_inclusion_proof(loc, *k), mem.generate_inclusion_proof(loc, *k));
            same(&a, &b, "a proof differs from the tree in memory");
            if let (Ok(pr), Ok(Some(v))) = (a, mem.get_one(loc, k)) {
                check(Rocks::<N>::verify_inclusion_proof(loc, *k, &v, &pr).is_ok(), "a proof is refused");
                let mut w = v.clone();
                w.push(0);
                check(Rocks::<N>::verify_inclusion_proof(loc, *k, &w, &pr).is_err(), "a proof of another value is accepted");
            }
        }
    }
}

/// Values of special lengths, in the database and in memory.
pub fn values<const N: usize>(lens: &[usize], reopened: bool) {
    rocksdb::reset();
    let keys = keys_at::<N>(2, &[0, N * 8 - 1]);
    let mut rocks = open::<N>(N * 8);
    let mut mem = match HashTree::<N>::open(Path::new("unused"), N * 8) {
        Ok(t) => t,
        Err(_) => return fail("the tree in memory cannot be opened"),
    };
    let l = lens[choose(lens.len())];
    let mut v: Val = vec![7; l];
    for i in 0..l {
        if i < 2 || i == l / 2 || i + 2 >= l {
            v[i] = byte();
        }
    }
    let ks: Vec<Array<N>> = keys.iter().map(|k| arr(*k)).collect();
    let r = match rocks.as_mut() {
        Some(r) => r,
        None => return fail("no tree"),
    };
    let vs = [v.clone(), vec![]];
    let a = r.insert(None, &mut ks.clone(), &vs);
    let b = mem.insert(None, &mut ks.clone(), &vs);
    same(&a, &b, "insert differs from the tree in memory");
    let (Ok(a), Ok(_)) = (a, b) else { return };
    let c = r.insert_one(Some(&a), &ks[1], &v);
    let d = mem.insert_one(Some(&a), &ks[1], &v);
    same(&c, &d, "insert differs from the tree in memory");
    if reopened {
        drop(rocks.take());
        rocks = open::<N>(N * 8);
    }
    let (Some(r), Ok(c)) = (rocks.as_ref(), c) else { return fail("no tree") };
    for (root, want) in [(a, [&vs[0], &vs[1]]), (c, [&v, &v])] {
        for (k, w) in ks.iter().zip(want) {
            match r.get_one(&root, k) {
                Ok(x) => check_val(&x, &Some(w.clone()), "a value comes back from the database changed"),
                Err(_) => fail("a value does not come back from the database"),
            }
            match r.get(&root, &mut [*k]) {
                Ok(m) => match m.get(k) {
                    Some(x) => check_val(x, &Some(w.clone()), "a value comes back from the database changed"),
                    None => fail("get left out a key"),
                },
                Err(_) => fail("a value does not come back from the database"),
            }
            match r.generate_inclusion_proof(&root, *k) {
                Ok(p) => check(Rocks::<N>::verify_inclusion_proof(&root, *k, w, &p).is_ok(), "a proof is refused"),
                Err(_) => fail("no proof of a stored key"),
            }
        }
    }
}

/// One tree, an insert that is refused or broken off, the removal of the tree, and the same content
/// once more: what was left behind must not come back.
pub fn again<const N: usize>(pos: &[usize], fault: bool) {
    rocksdb::reset();
    let keys: Vec<Array<N>> = keys_at::<N>(2, pos).iter().map(|k| arr(*k)).collect();
    let depth = if fault { N * 8 } else { 0 };
    let mut t = open::<N>(depth);
    let v = byte();
    let u = byte();
    let a = choose(2);
    let r = match t.as_mut() {
        Some(t) => t,
        None => return,
    };
    let loc = match r.insert_one(None, &keys[a], &vec![v, a as u8]) {
        Ok(l) => l,
        Err(_) => return fail("an insert failed"),
    };
    let mut ks = keys.clone();
    let vs: Vec<Val> = vec![vec![u, 0], vec![u, 1]];
    let gone = if fault {
        let prev = if choose(2) == 1 { Some(&loc) } else { None };
        rocksdb::fail_after(choose(24));
        r.insert(prev, &mut ks, &vs)
    } else {
        // two leaves are one branch too deep for an insert on top of them
        let both = match r.insert(None, &mut ks, &vs) {
            Ok(l) => l,
            Err(_) => return fail("an insert failed"),
        };
        let c = choose(2);
        r.insert_one(Some(&both), &keys[c], &vec![byte(), c as u8])
    };
    if fault && !rocksdb::heal() {
        return;
    }
    cover(if gone.is_ok() { "inserted" } else { "refused" });
    check(!fault || gone.is_err(), "a failure of the database is not reported");
    if choose(2) == 1 {
        cover("removed");
        check(r.remove(&loc).is_ok(), "a root cannot be removed");
        if let Ok(l) = gone {
            check(r.remove(&l).is_ok(), "a root cannot be removed");
        }
    }
    if choose(2) == 1 {
        drop(t.take());
        t = open::<N>(depth);
    }
    let r = match t.as_mut() {
        Some(t) => t,
        None => return,
    };
    let w = byte();
    let b = choose(2);
    match r.insert_one(None, &keys[b], &vec![w, b as u8]) {
        Ok(l) => match r.get_one(&l, &keys[b]) {
            Ok(Some(x)) => check_val(&Some(x), &Some(vec![w, b as u8]), "a new root reads wrongly after a failed insert"),
            _ => fail("a new root does not read after a failed insert"),
        },
        Err(_) => fail("an insert failed"),
    }
}

type W<const N: usize> = World<N, Rocks<N>>;

fn reopen<const N: usize>(w: &mut W<N>) {
    drop(w.tree.take());
    rocksdb::restart();
    match RocksDB::<N>::open(Path::new(PATH)) {
        Ok(db) => w.tree = starling::merkle_bit::MerkleBIT::from_db(db, w.depth).ok().map(Any::Bare),
        Err(_) => fail("the database cannot be opened again"),
    }
}

const GET: &str = "get at a root returned before was wrong";
const ONE: &str = "get_one at a root returned before was wrong";

/// Some history, then an operation during which the process dies or the database fails.
pub fn broken<const N: usize>(ops: usize, p: usize, pos: &[usize], points: usize, fault: bool, after: usize, few: bool) {
    rocksdb::reset();
    let keys = keys_at::<N>(p, pos);
    let db = match RocksDB::<N>::open(Path::new(PATH)) {
        Ok(db) => db,
        Err(_) => return fail("the database cannot be opened"),
    };
    let mut w: W<N> = World::over(db, N * 8, keys);
    let o = crate::hist::Opt { removal: true, few_sets: true, ..crate::hist::BASE };
    let n = if few { ops } else { choose(ops + 1) };
    for i in 0..n {
        crate::hist::step(&mut w, i == 0, &o);
    }
    // the operation
    let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
    let sets = sets(p, few);
    let inserts = sets.len() * (1 + live.len());
    let c = choose(inserts + live.len());
    let at = choose(points);
    if fault {
        rocksdb::fail_after(at);
    } else {
        rocksdb::die_after(at);
    }
    let mut fresh = None;
    if c >= inserts {
        cover("removal");
        tag("remove");
        let h = live[c - inserts];
        let loc = w.handles[h].loc;
        w.handles[h].live = false;
        let r = w.t().remove(&loc);
        let broke = end(fault);
        check(r.is_ok() == !(fault && broke), "a failure of the database is not reported");
    } else {
        let set = &sets[c % sets.len()];
        let prev = match c / sets.len() {
            0 => None,
            h => Some(live[h - 1]),
        };
        if prev.is_some() {
            cover("insert on a previous root");
        }
        tag("insert");
        let v = byte();
        let ploc = prev.map(|h| w.handles[h].loc);
        let mut map = match prev {
            Some(h) => w.handles[h].map.clone(),
            None => vec![None; p],
        };
        let mut ks: Vec<Array<N>> = Vec::new();
        let mut vs: Vec<Val> = Vec::new();
        for i in set {
            ks.push(arr(w.keys[*i]));
            vs.push(vec![v, *i as u8]);
            map[*i] = Some(vec![v, *i as u8]);
        }
        let r = if set.len() == 1 && choose(2) == 1 {
            let (k, v) = (ks[0], vs[0].clone());
            w.t().insert_one(ploc.as_ref(), &k, &v)
        } else {
            w.t().insert(ploc.as_ref(), &mut ks, &vs)
        };
        let broke = end(fault);
        check(r.is_ok() == !(fault && broke), "a failure of the database is not reported");
        if !broke {
            if let Ok(loc) = r {
                fresh = Some(Handle { loc, map, live: true });
            }
        }
    }
    if let Some(h) = fresh {
        w.handles.push(h);
    }
    if !fault || choose(2) == 1 {
        tag("reopen");
        if !fault {
            rocksdb::die();
        }
        reopen(&mut w);
    }
    w.check_reads(GET, ONE);
    // and life goes on
    for _ in 0..after {
        let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].live).collect();
        let c = choose(2 + 2 * live.len());
        if c < live.len() {
            tag("remove");
            w.remove(live[c]);
        } else if c < 2 * live.len() {
            tag("insert");
            let v = byte();
            w.insert(Some(live[c - live.len()]), &[(0, vec![v, 0])]);
        } else if c == 2 * live.len() {
            tag("insert");
            let v = byte();
            w.insert(None, &[(0, vec![v, 0])]);
        } else {
            tag("insert");
            let v = byte();
            let all: Vec<(usize, Val)> = (0..p).map(|i| (i, vec![v, i as u8])).collect();
            w.insert(None, &all);
        }
        w.check_reads(GET, ONE);
    }
}

fn end(fault: bool) -> bool {
    // a process that was to die at a later point dies now, as soon as the operation has returned
    let broke = if fault { rocksdb::heal() } else { rocksdb::died() };
    cover(match (fault, broke) {
        (true, true) => "fault",
        (false, true) => "died",
        _ => "went through",
    });
    broke
}
