//! Values of a type of their own, whose encoding is not the value itself and may fail.
use crate::sym::*;
use crate::world::*;
use starling::hash_tree::HashTree;
use starling::merkle_bit::MerkleBIT;
use starling::traits::{Decode, Encode, Exception};
use starling::Array;
use std::path::Path;

#[derive(Clone, PartialEq)]
pub struct Odd(pub Vec<u8>);

const NONE: u8 = 255;

impl Encode for Odd {
    fn encode(&self) -> Result<Vec<u8>, Exception> {
        if self.0.first() == Some(&NONE) {
            return Err(Exception::new("no encoding"));
        }
        let mut e = vec![0xee];
        e.extend(self.0.iter().rev().map(|b| b ^ 0x5a));
        Ok(e)
    }
}

impl Decode for Odd {
    fn decode(b: &[u8]) -> Result<Self, Exception> {
        if b.first() != Some(&0xee) {
            return Err(Exception::new("not an encoding"));
        }
        Ok(Odd(b[1..].iter().rev().map(|b| b ^ 0x5a).collect()))
    }
}

type T<const N: usize> = MerkleBIT<HashTree<N, Odd>, N>;

/// What is asserted.
#[derive(Clone, Copy, PartialEq)]
pub enum Ask {
    Reads,
    Proofs,
    Roots,
    Single,
}

struct H<const N: usize> {
    loc: Array<N>,
    map: Vec<Option<Odd>>,
    live: bool,
}

fn read<const N: usize>(t: &T<N>, h: &H<N>, ks: &[Array<N>], msg: &str) {
    match t.get(&h.loc, &mut ks.to_vec()) {
        Ok(m) => {
            check(m.len() == ks.len(), msg);
            for (k, w) in ks.iter().zip(&h.map) {
                match m.get(k) {
                    Some(v) => check(v == w, msg),
                    None => fail(msg),
                }
            }
        }
        Err(_) => fail(msg),
    }
    for (k, w) in ks.iter().zip(&h.map) {
        match t.get_one(&h.loc, k) {
            Ok(v) => check(v == *w, msg),
            Err(_) => fail(msg),
        }
    }
}

/// Histories of `ops` operations over two keys, values of up to 2 free bytes.
pub fn hist<const N: usize>(ops: usize, removals: bool, ask: Ask) {
    let ks: Vec<Array<N>> = keys_at::<N>(2, &[0, N * 8 - 1]).iter().map(|k| arr(*k)).collect();
    let mut t: T<N> = match MerkleBIT::new(Path::new("unused"), N * 8) {
        Ok(t) => t,
        Err(_) => return fail("no tree"),
    };
    let mut hs: Vec<H<N>> = Vec::new();
    for _ in 0..ops {
        let live: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].live).collect();
        let c = choose(1 + live.len());
        let prev = if c == 0 { None } else { Some(live[c - 1]) };
        let loc = prev.map(|h| hs[h].loc);
        let mut map = prev.map_or(vec![None; 2], |h| hs[h].map.clone());
        let l = choose(3);
        let v = Odd(vec(l));
        let bad = v.0.first() == Some(&NONE);
        let r = match choose(3 + usize::from(removals && prev.is_some())) {
            0 => {
                let set = [Odd(vec![1]), v.clone()];
                map[0] = Some(set[0].clone());
                map[1] = Some(v);
                t.insert(loc.as_ref(), &mut ks.clone(), &set)
            }
            1 => {
                map[0] = Some(v.clone());
                t.insert(loc.as_ref(), &mut [ks[0]], &[v])
            }
            2 => {
                map[1] = Some(v.clone());
                t.insert_one(loc.as_ref(), &ks[1], &v)
            }
            _ => {
                tag("remove");
                let h = prev.unwrap_or(0);
                hs[h].live = false;
                if t.remove(&hs[h].loc).is_err() {
                    fail("remove of a live root failed");
                }
                continue;
            }
        };
        match r {
            Ok(loc) => {
                observe(&loc[..]);
                if ask == Ask::Reads {
                    check(!bad, "an insert of a value without an encoding was accepted");
                }
                hs.push(H { loc, map, live: true });
            }
            Err(_) => {
                cover("no encoding");
                check(bad, "an insert failed");
            }
        }
    }
    for i in 0..hs.len() {
        let h = &hs[i];
        if !h.live {
            continue;
        }
        match ask {
            Ask::Reads => read(&t, h, &ks, "a value of a type of its own is not read back at a live root"),
            Ask::Single => {
                for k in &ks {
                    let one = t.get_one(&h.loc, k);
                    let all = t.get(&h.loc, &mut [*k]);
                    match (one, all) {
                        (Ok(x), Ok(y)) => check(y.get(k) == Some(&x), "get_one and get disagree"),
                        (Err(_), Err(_)) => {}
                        _ => fail("get_one and get disagree about an error"),
                    }
                }
            }
            Ask::Proofs => {
                for (k, w) in ks.iter().zip(&h.map) {
                    match (t.generate_inclusion_proof(&h.loc, *k), w) {
                        (Ok(p), Some(v)) => {
                            check(T::<N>::verify_inclusion_proof(&h.loc, *k, v, &p).is_ok(), "the proof of a stored key is refused");
                            let other = Odd(vec(2));
                            if other != *v {
                                check(T::<N>::verify_inclusion_proof(&h.loc, *k, &other, &p).is_err(), "a proof is accepted for another value");
                            }
                        }
                        (Err(_), Some(_)) => fail("a stored key cannot be proven"),
                        (Ok(_), None) => fail("a proof for an absent key"),
                        (Err(_), None) => cover("absent key"),
                    }
                }
            }
            Ask::Roots => {
                for j in 0..i {
                    if hs[j].live {
                        let same = hs[j].map == h.map;
                        check((hs[j].loc == h.loc) == same, "roots are equal although contents are not, or the other way round");
                    }
                }
            }
        }
    }
}
