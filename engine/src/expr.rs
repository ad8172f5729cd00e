//! Hash-consed bit-vector expression DAG with simplification and evaluation.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt, Not,
    /// entry `a` of the table `k`
    Sel,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // Const: value; Var: index; Extract: low bit
}

pub type Sup = [u64; 4];

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub sup: Vec<Sup>,
    /// structural hash: orders operands the same way in every worker
    sh: Vec<u64>,
    ev: Vec<(u32, u128)>,
    gen: u32,
    /// the only input an expression depends on: 0 none yet, u32::MAX several, else its index + 1
    only: Vec<u32>,
    /// size as a tree
    weight: Vec<u32>,
    tables: HashMap<E, std::rc::Rc<Table>, std::hash::BuildHasherDefault<Fx>>,
    /// rewrite functions of one input byte to a normal form
    pub tab: bool,
    pub arx: bool,
    /// constant tables by a hash of their content
    sels: HashMap<u128, std::rc::Rc<Vec<u128>>>,
}

/// The values of an expression of one input byte.
pub type Table = [u128; 256];

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b { self.write_u64(*x as u64) }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn fold(op: O, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        O::Add => x.wrapping_add(y),
        O::Sub => x.wrapping_sub(y),
        O::Mul => x.wrapping_mul(y),
        // SMT-LIB semantics for division by zero
        O::UDiv => if y == 0 { m } else { x / y },
        O::URem => if y == 0 { x } else { x % y },
        O::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 }
        }
        O::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { x } else { a.wrapping_rem(b) as u128 }
        }
        O::And => x & y,
        O::Or => x | y,
        O::Xor => x ^ y,
        O::Shl => if y >= w as u128 { 0 } else { x << y },
        O::LShr => if y >= w as u128 { 0 } else { x >> y },
        O::AShr => {
            let a = sx(x, w);
            (if y >= w as u128 { if a < 0 { -1 } else { 0 } } else { a >> y }) as u128
        }
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![], map: HashMap::default(), sup: vec![], sh: vec![], ev: vec![], gen: 1, only: vec![], weight: vec![], tables: HashMap::default(), tab: false, arx: false, sels: HashMap::new() };
        a.mk(O::Const, 1, 0, 0, 0, 0); // E 0 reserved (false)
        a
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let nd = Node { op, w, a, b, c, k };
        if let Some(e) = self.map.get(&nd) { return *e; }
        let mut s = [0u64; 4];
        let (mut only, mut weight) = (0u32, 1u32);
        match op {
            O::Const => {}
            O::Var => only = k as u32 + 1,
            _ => {
                let na = match op { O::Extract | O::ZExt | O::SExt | O::Not | O::Sel => 1, O::Ite => 3, _ => 2 };
                for x in &[a, b, c][..na] {
                    let o = self.only[*x as usize];
                    only = if only == 0 { o } else if o == 0 || o == only { only } else { u32::MAX };
                    weight = weight.saturating_add(self.weight[*x as usize]);
                }
                if self.tab && weight > 12 && only != 0 && only != u32::MAX {
                    if let Some(e) = self.normal(&nd, only - 1, weight) {
                        self.map.insert(nd, e);
                        return e;
                    }
                }
            }
        }
        // the normal form may have made nodes
        let e = self.n.len() as E;
        match op {
            O::Const => {}
            O::Var => s[((k / 64) % 4) as usize] |= 1 << (k % 64),
            _ => {
                let na = match op { O::Extract | O::ZExt | O::SExt | O::Not | O::Sel => 1, O::Ite => 3, _ => 2 };
                for (i, x) in [a, b, c].iter().enumerate() {
                    if i < na { for j in 0..4 { s[j] |= self.sup[*x as usize][j]; } }
                }
            }
        }
        let mut h = (op as u64) << 32 | w as u64;
        let mut mixin = |x: u64| { h = (h.rotate_left(23) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 31; };
        mixin(k as u64);
        mixin((k >> 64) as u64);
        if !matches!(op, O::Const | O::Var) { for x in [a, b, c] { mixin(self.sh[x as usize]); } }
        self.n.push(nd);
        self.sup.push(s);
        self.sh.push(h);
        self.ev.push((0, 0));
        self.only.push(only);
        self.weight.push(weight);
        self.map.insert(nd, e);
        e
    }
    /// The only input `e` depends on.
    pub fn single(&self, e: E) -> Option<u32> {
        match self.only[e as usize] { 0 | u32::MAX => None, x => Some(x - 1) }
    }

    fn table_of(&mut self, n: &Node) -> Table {
        let mut t = [0u128; 256];
        match n.op {
            O::Const => { t = [n.k; 256]; }
            O::Var => for (i, x) in t.iter_mut().enumerate() { *x = i as u128; },
            _ => {
                let na = match n.op { O::Extract | O::ZExt | O::SExt | O::Not | O::Sel => 1, O::Ite => 3, _ => 2 };
                let a = self.table(n.a);
                let b = if na > 1 { self.table(n.b) } else { a.clone() };
                let c = if na > 2 { self.table(n.c) } else { a.clone() };
                let (w, wa, wb) = (n.w, self.w(n.a), if na > 1 { self.w(n.b) } else { 0 });
                for i in 0..256 {
                    let (x, y) = (a[i], b[i]);
                    t[i] = match n.op {
                        O::Not => 1 - x,
                        O::Sel => self.sels[&n.k].get(x as usize).copied().unwrap_or(0),
                        O::Eq => (x == y) as u128,
                        O::Ult => (x < y) as u128,
                        O::Slt => (sx(x, wa) < sx(y, wa)) as u128,
                        O::Ite => if x == 1 { y } else { c[i] },
                        O::Concat => (x << wb) | y,
                        O::Extract => (x >> n.k) & mask(w),
                        O::ZExt => x,
                        O::SExt => (sx(x, wa) as u128) & mask(w),
                        op => fold(op, w, x, y),
                    };
                }
            }
        }
        t
    }
    pub fn tables_kept(&self) -> usize { self.tables.len() }
    pub fn table(&mut self, e: E) -> std::rc::Rc<Table> {
        if let Some(t) = self.tables.get(&e) { return t.clone(); }
        let n = self.nd(e);
        let t = std::rc::Rc::new(self.table_of(&n));
        if n.op != O::Const { self.tables.insert(e, t.clone()); }
        t
    }

    /// An equal expression that is smaller, if the function has few pieces.
    fn normal(&mut self, n: &Node, var: u32, weight: u32) -> Option<E> {
        let t = self.table_of(n);
        let e = self.from_table(&t, n.w, var, (weight / 8).min(32) as usize + 2)?;
        if self.only[e as usize] != 0 { self.tables.entry(e).or_insert_with(|| std::rc::Rc::new(t)); }
        Some(e)
    }

    /// The piecewise linear function with these values, if it has few pieces.
    pub fn from_table(&mut self, t: &Table, w: u32, var: u32, most: usize) -> Option<E> {
        let m = mask(w);
        // (first input, value there, slope)
        let mut seg: Vec<(usize, u128, u128)> = vec![];
        let mut i = 0;
        while i < 256 {
            let mut j = i + 1;
            let mut d = 0;
            if j < 256 {
                d = t[j].wrapping_sub(t[i]) & m;
                // a step between two constant stretches is not a slope
                if d != 0 && (w < 8 || (j + 1 < 256 && t[j + 1] == t[j])) { d = 0; }
                while j < 256 && t[j].wrapping_sub(t[j - 1]) & m == d { j += 1; }
            }
            seg.push((i, t[i], d));
            if seg.len() > most { return None; }
            i = j;
        }
        let was = std::mem::replace(&mut self.tab, false);
        let v = self.var(var);
        let mut acc = None;
        if w == 1 {
            for (k, (i, x, _)) in seg.iter().enumerate() {
                if *x == 0 { continue; }
                let end = seg.get(k + 1).map_or(256, |s| s.0);
                let c = self.range(v, *i, end);
                acc = Some(match acc { None => c, Some(a) => self.bin(O::Or, a, c) });
            }
            if acc.is_none() { acc = Some(self.k(1, 0)); }
        } else {
            for (k, (i, x, d)) in seg.iter().enumerate() {
                let end = seg.get(k + 1).map_or(256, |s| s.0);
                let e = if *d == 0 { self.k(w, *x) } else {
                    let z = self.zext(v, w);
                    let f = self.k(w, *d);
                    let p = self.bin(O::Mul, z, f);
                    let c = self.k(w, x.wrapping_sub(d.wrapping_mul(*i as u128)));
                    self.bin(O::Add, p, c)
                };
                acc = Some(match acc { None => e, Some(a) => {
                    // what came before holds below i
                    let b = self.k(8, *i as u128);
                    let c = self.cmp(O::Ult, v, b);
                    self.ite(c, a, e)
                } });
                let _ = end;
            }
        }
        self.tab = was;
        acc
    }
    fn range(&mut self, v: E, i: usize, end: usize) -> E {
        if i == 0 && end == 256 { return self.k(1, 1); }
        if end == i + 1 { let k = self.k(8, i as u128); return self.cmp(O::Eq, v, k); }
        if end == 256 { let k = self.k(8, i as u128); let c = self.cmp(O::Ult, v, k); return self.not(c); }
        let hi = self.k(8, end as u128);
        let below = self.cmp(O::Ult, v, hi);
        if i == 0 { return below; }
        let lo = self.k(8, i as u128);
        let c = self.cmp(O::Ult, v, lo);
        let c = self.not(c);
        self.bin(O::And, c, below)
    }

    fn after(&self, a: E, b: E) -> bool { (self.sh[a as usize], a) > (self.sh[b as usize], b) }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w }
    pub fn k(&mut self, w: u32, v: u128) -> E { self.mk(O::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn var(&mut self, i: u32) -> E { self.mk(O::Var, 8, 0, 0, 0, i as u128) }
    pub fn is_k(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const { Some(n.k) } else { None }
    }
    fn nd(&self, e: E) -> Node { self.n[e as usize] }

    /// cheap unsigned upper bound
    pub fn umax(&self, e: E, d: u32) -> u128 {
        let n = self.nd(e);
        let m = mask(n.w);
        if d == 0 { return m; }
        match n.op {
            O::Const => n.k,
            O::ZExt => self.umax(n.a, d - 1),
            O::And => self.umax(n.a, d - 1).min(self.umax(n.b, d - 1)),
            O::Or | O::Xor => {
                let x = self.umax(n.a, d - 1) | self.umax(n.b, d - 1);
                if x == 0 { 0 } else { mask(128 - x.leading_zeros()) }
            }
            O::Add => self.umax(n.a, d - 1).checked_add(self.umax(n.b, d - 1)).filter(|x| *x <= m).unwrap_or(m),
            O::Mul => self.umax(n.a, d - 1).checked_mul(self.umax(n.b, d - 1)).filter(|x| *x <= m).unwrap_or(m),
            O::URem => match self.is_k(n.b) { Some(k) if k > 0 => (k - 1).min(self.umax(n.a, d - 1)), _ => m },
            O::UDiv => match self.is_k(n.b) { Some(k) if k > 0 => self.umax(n.a, d - 1) / k, _ => m },
            O::Ite => self.umax(n.b, d - 1).max(self.umax(n.c, d - 1)),
            O::Concat => {
                let wl = self.w(n.b);
                (self.umax(n.a, d - 1) << wl) | self.umax(n.b, d - 1)
            }
            O::LShr => self.umax(n.a, d - 1),
            _ => m,
        }
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        let n = self.nd(a);
        match n.op {
            O::Const => self.k(1, 1 - n.k),
            O::Not => n.a,
            _ => self.mk(O::Not, 1, a, 0, 0, 0),
        }
    }

    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold(op, w, x, y);
            return self.k(w, r);
        }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        let commut = matches!(op, O::Add | O::Mul | O::And | O::Or | O::Xor);
        let (mut ka, mut kb) = (ka, kb);
        if commut && (ka.is_some() || (kb.is_none() && self.after(a, b))) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        // constant is now on the right for commutative ops
        if self.arx && w > 1 && matches!(op, O::Add | O::Xor) && (self.nd(a).op == op || self.nd(b).op == op) {
            if let Some(r) = self.sum(op, a, b) { return r; }
        }
        match op {
            O::Add => {
                if kb == Some(0) { return a; }
                if w == 1 { return self.bin(O::Xor, a, b); }
                let na = self.nd(a);
                if let Some(k2) = kb {
                    if na.op == O::Add {
                        if let Some(k1) = self.is_k(na.b) {
                            let k = self.k(w, k1.wrapping_add(k2));
                            return self.bin(O::Add, na.a, k);
                        }
                    }
                }
                // disjoint: concat(x,0) + zext(y)
                if let Some(r) = self.join(a, b) { return r; }
            }
            O::Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.k(w, 0); }
                if w == 1 { return self.bin(O::Xor, a, b); }
                if let Some(k) = kb {
                    let k = self.k(w, k.wrapping_neg());
                    return self.bin(O::Add, a, k);
                }
                // (x + k) - x
                let na = self.nd(a);
                if na.op == O::Add && na.a == b { return na.b; }
                if na.op == O::Add && na.b == b { return na.a; }
            }
            O::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if w == 1 { return self.bin(O::And, a, b); }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(O::Shl, a, s);
                    }
                }
            }
            O::UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(O::LShr, a, s);
                    }
                }
            }
            O::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k - 1);
                        return self.bin(O::And, a, s);
                    }
                    if k > 0 && self.umax(a, 6) < k { return a; }
                }
            }
            O::And => {
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if a == b { return a; }
                if w == 1 {
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if (na.op == O::Not && na.a == b) || (nb.op == O::Not && nb.a == a) { return self.k(1, 0); }
                }
                if let Some(k) = kb {
                    if self.umax(a, 6) <= k && (k + 1).is_power_of_two() { return a; }
                    // low mask
                    let t = (!k).trailing_zeros();
                    if k == mask(t) && t < w {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                    // mask of the form ones followed by zeros
                    let tz = k.trailing_zeros();
                    if tz > 0 && tz < w && k >> tz == mask(w - tz) {
                        let x = self.extract(a, tz, w - tz);
                        let z = self.k(tz, 0);
                        return self.concat(x, z);
                    }
                    let na = self.nd(a);
                    if na.op == O::And {
                        if let Some(k1) = self.is_k(na.b) {
                            let k = self.k(w, k1 & k);
                            return self.bin(O::And, na.a, k);
                        }
                    }
                    if na.op == O::ZExt {
                        let sw = self.w(na.a);
                        let kk = self.k(sw, k);
                        let x = self.bin(O::And, na.a, kk);
                        return self.zext(x, w);
                    }
                }
            }
            O::Or => {
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if a == b { return a; }
                if w == 1 {
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if (na.op == O::Not && na.a == b) || (nb.op == O::Not && nb.a == a) { return self.k(1, 1); }
                }
                if let Some(r) = self.join(a, b) { return r; }
            }
            O::Xor => {
                if kb == Some(0) { return a; }
                if a == b { return self.k(w, 0); }
                if w == 1 {
                    if kb == Some(1) { return self.not(a); }
                }
                if let Some(k) = kb {
                    let na = self.nd(a);
                    if na.op == O::Xor {
                        if let Some(k1) = self.is_k(na.b) {
                            let k = self.k(w, k1 ^ k);
                            return self.bin(O::Xor, na.a, k);
                        }
                    }
                }
            }
            O::Shl => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.k(w, 0); }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.k(k as u32, 0);
                    return self.concat(x, z);
                }
                if ka == Some(0) { return a; }
            }
            O::LShr => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.k(w, 0); }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
                if ka == Some(0) { return a; }
            }
            O::AShr => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }

    /// a sum (or exclusive or) of up to 12 terms, in one order whatever order it was computed in
    fn sum(&mut self, op: O, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (mut terms, mut k) = (vec![], 0u128);
        let mut todo = vec![a, b];
        while let Some(x) = todo.pop() {
            let n = self.nd(x);
            if n.op == op { todo.push(n.a); todo.push(n.b); }
            else if n.op == O::Const { k = fold(op, w, k, n.k); }
            else { terms.push(x); }
            if terms.len() + todo.len() > 12 { return None; }
        }
        terms.sort_by_key(|x| (self.sh[*x as usize], *x));
        if op == O::Xor {
            let mut i = 0;
            while i + 1 < terms.len() {
                if terms[i] == terms[i + 1] { terms.drain(i..i + 2); } else { i += 1; }
            }
        }
        if terms.is_empty() { return Some(self.k(w, k)); }
        let mut acc = terms[0];
        for t in &terms[1..] { acc = self.mk(op, w, acc, *t, 0, 0); }
        if k != 0 { let k = self.k(w, k); acc = self.mk(op, w, acc, k, 0, 0); }
        Some(acc)
    }

    /// What `e`, a part of a word, is the exclusive or of, down to parts of words that are not
    /// themselves exclusive ors (a compiler may work out a part of a word without the rest of it).
    fn atoms(&mut self, e: E) -> Option<Vec<E>> {
        let w = self.w(e);
        let (mut out, mut k, mut todo) = (vec![], 0u128, vec![e]);
        let mut left = 200;
        while let Some(x) = todo.pop() {
            left -= 1;
            if left == 0 { return None; }
            let n = self.nd(x);
            match n.op {
                O::Const => k ^= n.k,
                O::Xor => todo.extend([n.a, n.b]),
                O::Extract => {
                    let i = self.nd(n.a);
                    if i.op == O::Xor {
                        let l = self.extract(i.a, n.k as u32, w);
                        let r = self.extract(i.b, n.k as u32, w);
                        todo.extend([l, r]);
                    } else { out.push(x); }
                }
                _ => out.push(x),
            }
        }
        out.sort();
        let mut i = 0;
        while i + 1 < out.len() {
            if out[i] == out[i + 1] { out.drain(i..i + 2); } else { i += 1; }
        }
        if k != 0 { let k = self.k(w, k); out.push(k); }
        Some(out)
    }

    /// a|b (or a+b) as a concatenation when no bit can be set in both
    fn join(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 128 { return None; }
        let (ma, mb) = (self.may(a, 12), self.may(b, 12));
        if ma & mb != 0 || ma == mask(w) || mb == mask(w) { return None; }
        // stretches that belong to a and to b by turns
        let mut cuts: Vec<(u32, u32, bool)> = vec![];
        let (mut at, mut of_a) = (0, None);
        for i in 0..w {
            let x = match (ma >> i & 1, mb >> i & 1) { (1, _) => Some(true), (_, 1) => Some(false), _ => None };
            if x.is_some() && x != of_a {
                if let Some(o) = of_a {
                    cuts.push((at, i, o));
                    at = i;
                    if cuts.len() > 16 { return None; }
                }
                of_a = x;
            }
        }
        cuts.push((at, w, of_a.unwrap_or(true)));
        let mut acc: Option<E> = None;
        for (lo, hi, x) in cuts {
            let p = self.extract(if x { a } else { b }, lo, hi - lo);
            acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
        }
        acc
    }
    /// every node of an expression, one per line (for debugging)
    pub fn show(&self, e: E) {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue; }
            let n = self.nd(x);
            let na = match n.op { O::Const | O::Var => 0, O::Extract | O::ZExt | O::SExt | O::Not | O::Sel => 1, O::Ite => 3, _ => 2 };
            todo.extend(&[n.a, n.b, n.c][..na]);
        }
        for x in seen {
            let n = self.nd(x);
            let na = match n.op { O::Const | O::Var => 0, O::Extract | O::ZExt | O::SExt | O::Not | O::Sel => 1, O::Ite => 3, _ => 2 };
            eprintln!("{x} = {:?}{} {:?} {}", n.op, n.w, &[n.a, n.b, n.c][..na], if na < 2 { format!("{:x}", n.k) } else { String::new() });
        }
        eprintln!("-- {e}");
    }
    /// cheap bounds
    pub fn bounds(&self, e: E, d: u32) -> (u128, u128) {
        let n = self.nd(e);
        match n.op {
            O::Const => (n.k, n.k),
            O::ZExt => self.bounds(n.a, d),
            O::Concat if d > 0 => {
                let (a, b) = (self.bounds(n.a, d - 1), self.bounds(n.b, d - 1));
                let w = self.w(n.b);
                (a.0 << w | b.0, a.1 << w | b.1)
            }
            O::Add if d > 0 => {
                let (a, b) = (self.bounds(n.a, d - 1), self.bounds(n.b, d - 1));
                match a.1.checked_add(b.1) { Some(x) if x <= mask(n.w) => (a.0 + b.0, x), _ => (0, mask(n.w)) }
            }
            _ => (0, self.umax(e, d)),
        }
    }
    /// bits that may be set
    fn may(&self, e: E, d: u32) -> u128 {
        let n = self.nd(e);
        let m = mask(n.w);
        if d == 0 { return m; }
        match n.op {
            O::Const => n.k,
            O::ZExt => self.may(n.a, d - 1),
            O::Concat => (self.may(n.a, d - 1) << self.w(n.b)) | self.may(n.b, d - 1),
            O::And => self.may(n.a, d - 1) & self.may(n.b, d - 1),
            O::Or | O::Xor => self.may(n.a, d - 1) | self.may(n.b, d - 1),
            O::Ite => self.may(n.b, d - 1) | self.may(n.c, d - 1),
            O::Add | O::Mul | O::UDiv | O::URem => {
                let x = self.umax(e, d.min(8));
                if x == 0 { 0 } else { mask(128 - x.leading_zeros()) }
            }
            _ => m,
        }
    }

    /// a table of constants, to be looked up with `sel`
    pub fn sel_new(&mut self, w: u32, t: Vec<u128>) -> u128 {
        use std::hash::Hasher;
        let mut h = [Fx(w as u64), Fx(0x1234_5678)];
        for x in &t { for f in h.iter_mut() { f.write_u128(*x); } h[1].write_u64(0x9E37_79B9_7F4A_7C15); }
        let k = (h[0].finish() as u128) << 64 | h[1].finish() as u128;
        let old = self.sels.entry(k).or_insert_with(|| std::rc::Rc::new(t.clone()));
        assert!(**old == t, "two tables with one hash");
        k
    }
    /// entry `i` (zero beyond the end)
    pub fn sel(&mut self, w: u32, i: E, t: u128) -> E {
        if let Some(k) = self.is_k(i) { let x = self.sels[&t].get(k as usize).copied().unwrap_or(0); return self.k(w, x); }
        self.mk(O::Sel, w, i, 0, 0, t)
    }
    pub fn sel_table(&self, k: u128) -> std::rc::Rc<Vec<u128>> { self.sels[&k].clone() }
    /// low bits that are never set
    pub fn low_zeros(&self, e: E) -> u32 { self.may(e, 12).trailing_zeros().min(self.w(e)) }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.is_k(hi), self.is_k(lo)) {
            return self.k(w, (x << wl) | y);
        }
        if self.is_k(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (self.nd(hi), self.nd(lo));
        // neighbouring constants are one
        if nh.op == O::Const && nl.op == O::ZExt {
            let z = wl - self.w(nl.a);
            let k = self.k(wh + z, nh.k << z);
            return self.mk(O::Concat, w, k, nl.a, 0, 0);
        }
        if nh.op == O::Const && nl.op == O::Concat {
            if let Some(k1) = self.is_k(nl.a) {
                let wk = self.w(nl.a);
                let k = self.k(wh + wk, (nh.k << wk) | k1);
                return self.mk(O::Concat, w, k, nl.b, 0, 0);
            }
        }
        // adjacent extracts of the same expression
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nl.a, nl.k as u32, w);
        }
        if nh.op == O::Extract && nh.a == lo && nh.k == wl as u128 && self.w(nh.a) >= w {
            return self.extract(lo, 0, w);
        }
        // concat(h, concat(m, l)) with h,m adjacent extracts
        if nl.op == O::Concat {
            let nm = self.nd(nl.a);
            if nh.op == O::Extract && nm.op == O::Extract && nh.a == nm.a && nh.k == nm.k + nm.w as u128 {
                let x = self.concat(hi, nl.a);
                return self.concat(x, nl.b);
            }
        }
        // nested to the right, whatever order the parts came in
        if nh.op == O::Concat {
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        if nh.op == O::ZExt && self.is_k(hi).is_none() {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.mk(O::Concat, w, hi, lo, 0, 0)
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.nd(a);
        debug_assert!(lo + w <= n.w && w > 0);
        if lo == 0 && w == n.w { return a; }
        match n.op {
            O::Const => { let v = n.k >> lo; return self.k(w, v); }
            O::Extract => return self.extract(n.a, lo + n.k as u32, w),
            O::ZExt => {
                let sw = self.w(n.a);
                if lo >= sw { return self.k(w, 0); }
                if lo + w <= sw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, sw - lo);
                return self.zext(x, w);
            }
            O::SExt => {
                let sw = self.w(n.a);
                if lo + w <= sw { return self.extract(n.a, lo, w); }
                if lo < sw {
                    let x = self.extract(n.a, lo, sw - lo);
                    return self.sext(x, w);
                }
            }
            O::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            O::And | O::Or | O::Xor if !self.arx => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            O::Add | O::Sub | O::Mul if lo == 0 && !self.arx => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            O::Ite => {
                if self.is_k(n.b).is_some() || self.is_k(n.c).is_some() || true {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(O::Extract, w, a, 0, 0, lo as u128)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.nd(a);
        if n.w == w { return a; }
        match n.op {
            O::Const => return self.k(w, n.k),
            O::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(O::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.nd(a);
        if n.w == w { return a; }
        match n.op {
            O::Const => { let v = sx(n.k, n.w) as u128; return self.k(w, v); }
            O::SExt => return self.sext(n.a, w),
            O::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(O::SExt, w, a, 0, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_k(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let nc = self.nd(c);
        if nc.op == O::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            if let Some(k) = self.is_k(a) {
                return if k == 1 { self.bin(O::Or, c, b) } else { let n = self.not(c); self.bin(O::And, n, b) };
            }
            if let Some(k) = self.is_k(b) {
                return if k == 0 { self.bin(O::And, c, a) } else { let n = self.not(c); self.bin(O::Or, n, a) };
            }
        }
        // ite(c, ite(c, x, _), y)
        let na = self.nd(a);
        if na.op == O::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.nd(b);
        if nb.op == O::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        if w > 1 {
            // ite(c,1,0) = zext(c)
            if let (Some(1), Some(0)) = (self.is_k(a), self.is_k(b)) { return self.zext(c, w); }
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }

    /// does `e` consist of nested ites with constant leaves (few)?
    fn const_leaves(&self, e: E, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 { return false; }
        let n = self.nd(e);
        match n.op {
            O::Const => true,
            O::Ite => self.const_leaves(n.b, budget) && self.const_leaves(n.c, budget),
            _ => false,
        }
    }

    fn push_cmp(&mut self, op: O, e: E, k: E, swapped: bool) -> E {
        let n = self.nd(e);
        if n.op == O::Ite {
            let x = self.push_cmp(op, n.b, k, swapped);
            let y = self.push_cmp(op, n.c, k, swapped);
            self.ite(n.a, x, y)
        } else if swapped {
            self.cmp(op, k, e)
        } else {
            self.cmp(op, e, k)
        }
    }

    pub fn cmp(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = match op {
                O::Eq => x == y,
                O::Ult => x < y,
                O::Slt => sx(x, w) < sx(y, w),
                _ => unreachable!(),
            };
            return self.k(1, r as u128);
        }
        if a == b { let r = (op == O::Eq) as u128; return self.k(1, r); }
        let (na, nb) = (self.nd(a), self.nd(b));
        match op {
            O::Eq => {
                if ka.is_some() || (kb.is_none() && self.after(a, b)) { return self.cmp(op, b, a); }
                if w == 1 {
                    if let Some(k) = kb { return if k == 1 { a } else { self.not(a) }; }
                    let x = self.bin(O::Xor, a, b);
                    return self.not(x);
                }
                if self.arx && w > 1 && w < 64 && kb.is_none() && (na.op == O::Xor || na.op == O::Extract) {
                    if let (Some(x), Some(y)) = (self.atoms(a), self.atoms(b)) {
                        if x == y { return self.k(1, 1); }
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        O::ZExt => {
                            let sw = self.w(na.a);
                            if k > mask(sw) { return self.k(1, 0); }
                            let kk = self.k(sw, k);
                            return self.cmp(op, na.a, kk);
                        }
                        O::SExt => {
                            let sw = self.w(na.a);
                            let low = k & mask(sw);
                            if (sx(low, sw) as u128) & mask(w) != k { return self.k(1, 0); }
                            let kk = self.k(sw, low);
                            return self.cmp(op, na.a, kk);
                        }
                        O::Add => {
                            if let Some(k1) = self.is_k(na.b) {
                                let kk = self.k(w, k.wrapping_sub(k1));
                                return self.cmp(op, na.a, kk);
                            }
                        }
                        O::Sub if k == 0 => return self.cmp(op, na.a, na.b),
                        O::Xor => {
                            if let Some(k1) = self.is_k(na.b) {
                                let kk = self.k(w, k ^ k1);
                                return self.cmp(op, na.a, kk);
                            }
                            if k == 0 { return self.cmp(op, na.a, na.b); }
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let kh = self.k(w - wl, k >> wl);
                            let kl = self.k(wl, k);
                            let x = self.cmp(op, na.a, kh);
                            if self.is_k(x) == Some(0) { return x; }
                            let y = self.cmp(op, na.b, kl);
                            return self.bin(O::And, x, y);
                        }
                        O::Ite => {
                            let mut bud = 24;
                            if self.const_leaves(a, &mut bud) || self.is_k(na.b).is_some() || self.is_k(na.c).is_some() {
                                return self.push_cmp(op, a, b, false);
                            }
                        }
                        _ => {}
                    }
                    if self.umax(a, 6) < k { return self.k(1, 0); }
                } else {
                    if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) { return self.cmp(op, na.a, nb.a); }
                    if na.op == O::Concat && nb.op == O::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.cmp(op, na.a, nb.a);
                        let y = self.cmp(op, na.b, nb.b);
                        return self.bin(O::And, x, y);
                    }
                }
            }
            O::Ult => {
                if kb == Some(0) { return self.k(1, 0); }
                if kb == Some(1) { let z = self.k(w, 0); return self.cmp(O::Eq, a, z); }
                if ka == Some(0) { let z = self.k(w, 0); let e = self.cmp(O::Eq, b, z); return self.not(e); }
                if w == 1 { let n = self.not(a); return self.bin(O::And, n, b); }
                if let Some(k) = kb {
                    if self.umax(a, 8) < k { return self.k(1, 1); }
                    if na.op == O::ZExt {
                        let kk = self.k(self.w(na.a), k);
                        return self.cmp(op, na.a, kk); // k <= umax <= mask(sw)
                    }
                    if na.op == O::Ite {
                        let mut bud = 24;
                        if self.const_leaves(a, &mut bud) { return self.push_cmp(op, a, b, false); }
                    }
                }
                if let Some(k) = ka {
                    if self.umax(b, 8) <= k { return self.k(1, 0); }
                    if nb.op == O::ZExt {
                        let kk = self.k(self.w(nb.a), k);
                        return self.cmp(op, kk, nb.a);
                    }
                    if nb.op == O::Ite {
                        let mut bud = 24;
                        if self.const_leaves(b, &mut bud) { return self.push_cmp(op, b, a, true); }
                    }
                }
                if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) { return self.cmp(op, na.a, nb.a); }
            }
            O::Slt => {
                if w == 1 { let n = self.not(b); return self.bin(O::And, a, n); }
                let half = mask(w) >> 1;
                let (ua, ub) = (self.umax(a, 8), self.umax(b, 8));
                if ua <= half && ub <= half { return self.cmp(O::Ult, a, b); }
                if let Some(_) = kb {
                    if na.op == O::Ite {
                        let mut bud = 24;
                        if self.const_leaves(a, &mut bud) { return self.push_cmp(op, a, b, false); }
                    }
                }
                if let Some(_) = ka {
                    if nb.op == O::Ite {
                        let mut bud = 24;
                        if self.const_leaves(b, &mut bud) { return self.push_cmp(op, b, a, true); }
                    }
                }
            }
            _ => unreachable!(),
        }
        self.mk(op, 1, a, b, 0, 0)
    }

    pub fn new_model(&mut self) { self.gen += 1; }

    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        if self.ev[e as usize].0 == self.gen { return self.ev[e as usize].1; }
        let n = self.nd(e);
        let w = n.w;
        let r = match n.op {
            O::Const => n.k,
            O::Var => m.get(n.k as usize).copied().unwrap_or(0) as u128,
            O::Not => 1 - self.eval(n.a, m),
            O::Sel => { let i = self.eval(n.a, m); self.sels[&n.k].get(i as usize).copied().unwrap_or(0) }
            O::Eq => (self.eval(n.a, m) == self.eval(n.b, m)) as u128,
            O::Ult => (self.eval(n.a, m) < self.eval(n.b, m)) as u128,
            O::Slt => {
                let ww = self.w(n.a);
                (sx(self.eval(n.a, m), ww) < sx(self.eval(n.b, m), ww)) as u128
            }
            O::Ite => if self.eval(n.a, m) == 1 { self.eval(n.b, m) } else { self.eval(n.c, m) },
            O::Concat => (self.eval(n.a, m) << self.w(n.b)) | self.eval(n.b, m),
            O::Extract => (self.eval(n.a, m) >> n.k) & mask(w),
            O::ZExt => self.eval(n.a, m),
            O::SExt => { let ww = self.w(n.a); (sx(self.eval(n.a, m), ww) as u128) & mask(w) }
            op => { let (x, y) = (self.eval(n.a, m), self.eval(n.b, m)); fold(op, w, x, y) }
        };
        self.ev[e as usize] = (self.gen, r);
        r
    }

    /// evaluate under another model without touching the memo (small expressions only, own memo)
    pub fn eval_with(&self, e: E, m: &[u8], memo: &mut HashMap<E, u128, std::hash::BuildHasherDefault<Fx>>) -> u128 {
        let n = self.nd(e);
        match n.op {
            O::Const => return n.k,
            O::Var => return m.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = n.w;
        let r = match n.op {
            O::Not => 1 - self.eval_with(n.a, m, memo),
            O::Sel => { let i = self.eval_with(n.a, m, memo); self.sels[&n.k].get(i as usize).copied().unwrap_or(0) }
            O::Eq => (self.eval_with(n.a, m, memo) == self.eval_with(n.b, m, memo)) as u128,
            O::Ult => (self.eval_with(n.a, m, memo) < self.eval_with(n.b, m, memo)) as u128,
            O::Slt => {
                let ww = self.w(n.a);
                (sx(self.eval_with(n.a, m, memo), ww) < sx(self.eval_with(n.b, m, memo), ww)) as u128
            }
            O::Ite => if self.eval_with(n.a, m, memo) == 1 { self.eval_with(n.b, m, memo) } else { self.eval_with(n.c, m, memo) },
            O::Concat => (self.eval_with(n.a, m, memo) << self.w(n.b)) | self.eval_with(n.b, m, memo),
            O::Extract => (self.eval_with(n.a, m, memo) >> n.k) & mask(w),
            O::ZExt => self.eval_with(n.a, m, memo),
            O::SExt => { let ww = self.w(n.a); (sx(self.eval_with(n.a, m, memo), ww) as u128) & mask(w) }
            op => { let (x, y) = (self.eval_with(n.a, m, memo), self.eval_with(n.b, m, memo)); fold(op, w, x, y) }
        };
        memo.insert(e, r);
        r
    }
}
