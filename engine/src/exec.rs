//! Concolic interpreter: runs one path under a concrete model of the symbolic input bytes,
//! collects the path condition, and asks the solver about every other side of every symbolic branch.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{HashMap, HashSet};
use std::cmp::Ordering;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Item {
    pub model: Vec<u8>,
    pub bound: usize,
    pub excl: Vec<u128>,
    pub implied: Vec<bool>,
    pub hash: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Late,
    Done,
    Killed,
    Violation(String),
    Error(String),
}
pub enum Stop {
    End(End),
}
type R<X> = Result<X, Stop>;

fn err<X>(s: impl Into<String>) -> R<X> { Err(Stop::End(End::Error(s.into()))) }

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Box<[E]>>,
    freed: bool,
    heap: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stub {
    NoStub,
    SeByte, SeAssume, SeFail, SeCheck, SeCover, SeObserve, SeConc, SeTag,
    Malloc, Calloc, Realloc, Free, PosixMemalign,
    Memcmp, Bcmp, Memcpy, Memset, Strlen,
    Nop, Ret0, RetArg0, RetArg2, Assume,
    Ctlz, Cttz, Ctpop, Bswap, BitRev, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UAddSat, USubSat, SAddSat, SSubSat,
    UMin, UMax, SMin, SMax, Abs, Fshl, Fshr, Ucmp, Scmp, IsConst,
    VecReduceOr, VecReduceAnd, VecReduceAdd,
    HashOne, RandKeys, Panic, Getrandom, Errno, VecMask,
    FAbs, FCeil, FFloor, FTrunc, FSqrt, FLog2, FpToUi, FpToSi, FloatText, BigDecimal, AddCarry, SubBorrow,
}

fn to_f64(w: u32, x: u64) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) } }
fn float_bin(k: FBin, w: u32, x: u64, y: u64) -> u64 {
    macro_rules! go { ($a:expr, $b:expr) => {{ let (a, b) = ($a, $b); match k { FBin::Add => a + b, FBin::Sub => a - b, FBin::Mul => a * b, FBin::Div => a / b, FBin::Rem => a % b, FBin::Neg => -a }.to_bits() }} }
    if w == 32 { go!(f32::from_bits(x as u32), f32::from_bits(y as u32)) as u64 } else { go!(f64::from_bits(x), f64::from_bits(y)) }
}
fn float_cast(k: FCast, fw: u32, tw: u32, x: u64) -> u128 {
    let m = mask(tw);
    let out = |d: f64, s: f32| if tw == 32 { s.to_bits() as u128 } else { d.to_bits() as u128 };
    match k {
        FCast::SiToFp => { let v = sx(x as u128, fw); out(v as f64, v as f32) }
        FCast::UiToFp => { let v = x as u128 & mask(fw); out(v as f64, v as f32) }
        FCast::FpToSi => (to_f64(fw, x) as i128).clamp(-(m as i128 >> 1) - 1, m as i128 >> 1) as u128 & m,
        FCast::FpToUi => (to_f64(fw, x) as u128).min(m),
        FCast::Ext => to_f64(fw, x).to_bits() as u128,
        FCast::Trunc => (f64::from_bits(x) as f32).to_bits() as u128,
    }
}

pub fn stub_for(name: &str) -> Stub {
    use Stub::*;
    match name {
        "se_byte" => return SeByte, "se_assume" => return SeAssume, "se_fail" => return SeFail,
        "se_check" => return SeCheck, "se_cover" => return SeCover, "se_observe" => return SeObserve,
        "se_concretize" => return SeConc, "se_tag" => return SeTag,
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free,
        "posix_memalign" => return PosixMemalign, "memcmp" => return Memcmp, "bcmp" => return Bcmp,
        "memcpy" | "memmove" => return Memcpy, "memset" => return Memset, "strlen" => return Strlen,
        "write" => return RetArg2, "getenv" | "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_key_delete" => return Ret0,
        "abort" => return Panic, "getrandom" => return Getrandom, "__errno_location" => return Errno,
        _ => {}
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let base: &str = r;
        let p = |s: &str| base.starts_with(s);
        return if p("fabs") { FAbs } else if p("ceil") { FCeil } else if p("floor") { FFloor } else if p("trunc.") { FTrunc } else if p("sqrt") { FSqrt } else if p("log2") { FLog2 } else if p("fptoui.sat") { FpToUi } else if p("fptosi.sat") { FpToSi } else if p("lifetime") || p("experimental.noalias") || p("x86.sse2.pause") || p("dbg") || p("prefetch") || p("donothing") || p("invariant.start") || p("invariant.end") || p("fake.use") { Nop }
        else if p("assume") { Assume }
        else if p("memcpy") || p("memmove") { Memcpy } else if p("memset") { Memset }
        else if p("ctlz") { Ctlz } else if p("cttz") { Cttz } else if p("ctpop") { Ctpop } else if p("bswap") { Bswap } else if p("bitreverse") { BitRev }
        else if p("uadd.with") { UAddO } else if p("usub.with") { USubO } else if p("umul.with") { UMulO }
        else if p("sadd.with") { SAddO } else if p("ssub.with") { SSubO } else if p("smul.with") { SMulO }
        else if p("uadd.sat") { UAddSat } else if p("usub.sat") { USubSat } else if p("sadd.sat") { SAddSat } else if p("ssub.sat") { SSubSat }
        else if p("umin") { UMin } else if p("umax") { UMax } else if p("smin") { SMin } else if p("smax") { SMax }
        else if p("abs") { Abs } else if p("fshl") { Fshl } else if p("fshr") { Fshr } else if p("ucmp") { Ucmp } else if p("scmp") { Scmp }
        else if p("is.constant") { IsConst } else if p("threadlocal.address") || p("expect") || p("ptrmask") && false || p("launder") || p("strip.invariant") { RetArg0 }
        else if p("vector.reduce.or") { VecReduceOr } else if p("vector.reduce.and") { VecReduceAnd } else if p("vector.reduce.add") { VecReduceAdd }
        else if p("x86.addcarry.64") { AddCarry } else if p("x86.subborrow.64") { SubBorrow }
        else if p("x86.sse2.pmovmskb") { VecMask }
        else if p("trap") || p("ubsantrap") || p("debugtrap") { Panic }
        else { NoStub };
    }
    // the text of a floating-point number: only error messages contain one
    if name.contains("14JsonUnexpectedNtNt") && name.ends_with("7Display3fmt") || name.contains("10num_bigint6bigint") && name.ends_with("7Display3fmt") { return FloatText; }
    if name.contains("3fmt3numo10__fmt_inner") { return BigDecimal; }
    if name.contains("3fmt5float") || name.contains("fmt3num3imp8float") { return FloatText; }
    if name.contains("8hash_one") { return HashOne; }
    if name.contains("hashmap_random_keys") { return RandKeys; }
    if (name.contains("9panicking") && !name.contains("11panic_count")) || name.contains("rust_begin_unwind") || name.contains("18handle_alloc_error")
        || name.contains("rust_panic") || name.contains("8rt_abort") || name.contains("abort_internal") { return Panic; }
    NoStub
}

pub static FORKS: std::sync::Mutex<std::collections::BTreeMap<String, u64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub decisions: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub solver_ns: u64,
    pub instrs: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub max_instrs: u64,
    pub max_inputs: u64,
    pub max_depth: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths; self.killed += o.killed; self.decisions += o.decisions; self.queries += o.queries;
        self.sat += o.sat; self.unsat += o.unsat; self.unknown += o.unknown; self.cache_hits += o.cache_hits; self.model_hits += o.model_hits;
        self.solver_ns += o.solver_ns; self.instrs += o.instrs; self.checks += o.checks; self.check_queries += o.check_queries;
        self.max_instrs = self.max_instrs.max(o.max_instrs); self.max_inputs = self.max_inputs.max(o.max_inputs); self.max_depth = self.max_depth.max(o.max_depth);
    }
}

/// no harness needs a bigger allocation; the native driver refuses them as well
const BIGGEST: u64 = 64 << 20;
/// the main thread's usual stack; frames are counted by their allocas, that is by less than they take
const STACK: u64 = 8 << 20;

pub struct Cfg {
    pub max_instrs: u64,
    pub timeout_ms: u32,
    pub ite_max: u64,
    pub fork_wide: u32,
    pub profile: bool,
    pub deadline: Option<Instant>,
    pub tab: bool,
    /// keep words together (for hash functions)
    pub arx: bool,
    /// look-ups in constant tables stay look-ups
    pub sel: bool,
    pub dump_every: u64,
    pub trace: bool,
}

struct Frame {
    f: u32,
    base: usize,
    blk: u32,
    ip: usize,
    ret_dst: Option<u32>,
    cont: Option<u32>, // invoke normal destination
    allocas: Vec<u32>,
    used: u64,
}

pub struct PathOut {
    pub end: End,
    pub model: Vec<u8>,
    pub obs: Vec<u8>,
    pub tags: Vec<String>,
    pub stack: String,
    pub ninputs: u32,
}

pub struct Worker<'m> {
    pub m: &'m Module,
    pub stubs: &'m [Stub],
    pub cfg: &'m Cfg,
    pub ar: Arena,
    pub z3: Z3,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    cores: HashMap<E, Vec<Box<[E]>>>,
    /// tables looked up so far: global, width, stride
    sel_memo: HashMap<(u32, u32, u32), u128>,
    recent: Vec<Vec<u8>>,
    pub st: Stats,
    pub covers: HashSet<String>,
    pub seen_funcs: Vec<bool>,
    pub dumps: Vec<(String, bool)>,
    // per path
    objs: Vec<Obj>,
    gl: HashMap<u32, Obj>,
    regs: Vec<V>,
    frames: Vec<Frame>,
    pc: Vec<E>,
    pcset: HashSet<E>,
    model: Vec<u8>,
    nin: u32,
    ndec: usize,
    bound: usize,
    excl: Vec<u128>,
    implied: Vec<bool>,
    hash: u64,
    want_hash: u64,
    pub new_items: Vec<Item>,
    obs: Vec<u8>,
    tags: Vec<String>,
    instrs: u64,
    stack_used: u64,
    late: bool,
    errno: u64,
    violations_soft: Vec<(String, Vec<u8>)>,
}

fn mixh(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) }

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, stubs: &'m [Stub], cfg: &'m Cfg) -> Self {
        Worker {
            m, stubs, cfg, ar: Arena::new(), z3: Z3::new(cfg.timeout_ms), cache: HashMap::new(), cores: HashMap::new(), sel_memo: HashMap::new(), recent: vec![], st: Stats::default(),
            covers: HashSet::new(), seen_funcs: vec![false; m.funcs.len()], dumps: vec![],
            objs: vec![], gl: HashMap::new(), regs: vec![], frames: vec![], pc: vec![], pcset: HashSet::new(), model: vec![], nin: 0, ndec: 0, bound: 0,
            excl: vec![], implied: vec![], hash: 0, want_hash: 0, new_items: vec![], obs: vec![], tags: vec![], instrs: 0, stack_used: 0, late: false, errno: 0, violations_soft: vec![],
        }
    }

    /// forget the expression arena (bounds memory)
    pub fn gc(&mut self) {
        if self.ar.n.len() > 3_000_000 || self.ar.tables_kept() > 30_000 || self.cache.len() > 400_000 {
            self.ar = Arena::new();
            self.sel_memo.clear();
            self.z3 = Z3::new(self.cfg.timeout_ms);
            self.cache.clear();
            self.cores.clear();
        }
    }

    pub fn run(&mut self, entry: u32, item: Item) -> (PathOut, Vec<(String, Vec<u8>)>) {
        self.gc();
        self.ar.new_model();
        self.ar.tab = self.cfg.tab;
        self.ar.arx = self.cfg.arx;
        self.objs.clear();
        self.gl.clear();
        self.regs.clear();
        self.frames.clear();
        self.pc.clear();
        self.pcset.clear();
        self.model = item.model;
        self.nin = 0;
        self.ndec = 0;
        self.bound = item.bound;
        self.excl = item.excl;
        self.implied = item.implied;
        self.hash = 0;
        self.want_hash = item.hash;
        self.new_items.clear();
        self.obs.clear();
        self.tags.clear();
        self.instrs = 0;
        self.stack_used = 0;
        self.errno = 0;
        self.violations_soft.clear();
        let r = self.exec(entry);
        let end = match r { Ok(()) => End::Done, Err(Stop::End(e)) => e };
        if self.late { self.late = false; self.new_items.clear(); return (PathOut { end: End::Late, model: vec![], obs: vec![], tags: vec![], stack: String::new(), ninputs: 0 }, std::mem::take(&mut self.violations_soft)); }
        let end = if self.ndec < self.bound && !matches!(end, End::Error(_)) {
            End::Error(format!("re-execution diverged: path ended after {} of {} decisions", self.ndec, self.bound))
        } else { end };
        self.st.instrs += self.instrs;
        self.st.decisions += self.ndec as u64;
        self.st.max_instrs = self.st.max_instrs.max(self.instrs);
        self.st.max_inputs = self.st.max_inputs.max(self.nin as u64);
        self.st.max_depth = self.st.max_depth.max(self.ndec as u64);
        match end { End::Killed => self.st.killed += 1, _ => self.st.paths += 1 }
        let mut model = self.model.clone();
        model.resize(self.nin as usize, 0);
        self.recent.push(self.model.clone());
        if self.recent.len() > 6 { self.recent.remove(0); }
        let stack = self.stack();
        let soft = std::mem::take(&mut self.violations_soft);
        (PathOut { end, model, obs: std::mem::take(&mut self.obs), tags: std::mem::take(&mut self.tags), stack, ninputs: self.nin }, soft)
    }

    fn stack(&self) -> String {
        self.frames.iter().rev().take(12).map(|f| short(&self.m.funcs[f.f as usize].name)).collect::<Vec<_>>().join(" < ")
    }

    // ---------------------------------------------------------------- solver

    fn query(&mut self, extra: &[E]) -> Option<Result<Vec<u8>, ()>> {
        // Some(Ok(model)) sat, Some(Err) unsat, None unknown
        let mut sup = [0u64; 4];
        let mut cs: Vec<E> = vec![];
        for e in extra {
            if let Some(k) = self.ar.is_k(*e) {
                if k == 0 { return Some(Err(())); }
                continue;
            }
            for j in 0..4 { sup[j] |= self.ar.sup[*e as usize][j]; }
            cs.push(*e);
        }
        if cs.is_empty() {
            let m = self.model.clone();
            return Some(Ok(m));
        }
        let nextra = cs.len();
        if self.cfg.deadline.is_some_and(|d| Instant::now() > d) { self.late = true; return None; }
        // a contradictory subset found before
        if nextra == 1 {
            if let Some(l) = self.cores.get(&cs[0]) {
                if l.iter().any(|k| k.iter().all(|e| self.pcset.contains(e))) {
                    self.st.cache_hits += 1;
                    return Some(Err(()));
                }
            }
        }
        // independence: only the constraints connected through shared inputs matter
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in self.pc.iter().enumerate() {
                if used[i] { continue; }
                let s = self.ar.sup[*e as usize];
                if (0..4).any(|j| s[j] & sup[j] != 0) {
                    used[i] = true;
                    cs.push(*e);
                    for j in 0..4 {
                        if s[j] & !sup[j] != 0 { ch = true; }
                        sup[j] |= s[j];
                    }
                }
            }
            if !ch { break; }
        }
        let mut key = cs.clone();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Some(match r {
                None => Err(()),
                Some(v) => {
                    let mut m = self.model.clone();
                    for (i, b) in v { while m.len() <= *i as usize { m.push(0); } m[*i as usize] = *b; }
                    Ok(m)
                }
            });
        }
        // a recent model may already satisfy it
        for m in self.recent.iter().rev() {
            let mut memo = HashMap::default();
            if cs[..nextra].iter().all(|e| self.ar.eval_with(*e, m, &mut memo) == 1) && cs[nextra..].iter().all(|e| self.ar.eval_with(*e, m, &mut memo) == 1) {
                self.st.model_hits += 1;
                let mut mm = self.model.clone();
                let mut v = vec![];
                for i in 0..(self.nin as usize) {
                    if sup[(i / 64) % 4] >> (i % 64) & 1 == 1 {
                        while mm.len() <= i { mm.push(0); }
                        mm[i] = m.get(i).copied().unwrap_or(0);
                        v.push((i as u32, mm[i]));
                    }
                }
                self.cache.insert(key, Some(v));
                return Some(Ok(mm));
            }
        }
        let t = Instant::now();
        let mut d = String::new();
        let want = self.cfg.dump_every > 0 && self.st.queries % self.cfg.dump_every == 0 && self.dumps.len() < 40;
        let r = self.z3.check(&self.ar, &cs, if want { Some(&mut d) } else { None });
        self.st.solver_ns += t.elapsed().as_nanos() as u64;
        self.st.queries += 1;
        match r {
            Sat::Unsat(core) => {
                self.st.unsat += 1;
                if want { self.dumps.push((d, false)); }
                if nextra == 1 && core.len() < 24 {
                    let f = cs[0];
                    self.cores.entry(f).or_default().push(core.into_iter().filter(|e| *e != f).collect());
                } else {
                    self.cache.insert(key, None);
                }
                Some(Err(()))
            }
            Sat::Sat(v) => {
                self.st.sat += 1;
                if want { self.dumps.push((d, true)); }
                let mut m = self.model.clone();
                for (i, b) in &v { while m.len() <= *i as usize { m.push(0); } m[*i as usize] = *b; }
                // the solver's model must satisfy the constraints in our own semantics
                let mut memo = HashMap::default();
                for e in &cs {
                    if self.ar.eval_with(*e, &m, &mut memo) != 1 { panic!("engine: solver model does not satisfy constraint {e}: {:?}", self.ar.n[*e as usize]); }
                }
                self.cache.insert(key, Some(v));
                Some(Ok(m))
            }
            Sat::Unknown => {
                self.st.unknown += 1;
                if std::env::var("SEMIR_UNKNOWN").is_ok() {
                    for e in &cs { self.ar.show(*e); }
                }
                None
            }
        }
    }

    fn add_pc(&mut self, c: E) {
        if self.pcset.insert(c) { self.pc.push(c); }
    }

    fn at_decision(&mut self) -> R<usize> {
        if self.ndec == self.bound && self.bound > 0 && self.hash != self.want_hash {
            return err("re-execution diverged (decision hash)");
        }
        let i = self.ndec;
        self.ndec += 1;
        Ok(i)
    }

    fn prefix(&self, n: usize) -> Vec<bool> { self.implied[..n].to_vec() }

    /// where executions split (SEMIR_FORKS=1)
    fn note_fork(&self, kind: &str) {
        if !self.cfg.profile { return; }
        let at = self.frames.iter().rev().take(3).map(|f| format!("{}@{}", short(&self.m.funcs[f.f as usize].name), f.blk)).collect::<Vec<_>>().join(" < ");
        *FORKS.lock().unwrap().entry(format!("{kind} {at}")).or_insert(0) += 1;
    }

    fn branch(&mut self, c: E) -> R<bool> {
        if let Some(k) = self.ar.is_k(c) { return Ok(k == 1); }
        if self.pcset.contains(&c) { return Ok(true); }
        let nc = self.ar.not(c);
        if self.pcset.contains(&nc) { return Ok(false); }
        let v = self.ar.eval(c, &self.model) == 1;
        let idx = self.at_decision()?;
        let (t, f) = if v { (c, nc) } else { (nc, c) };
        let h0 = self.hash;
        self.hash = mixh(h0, 2 + v as u64);
        if idx < self.bound {
            if self.implied[idx] { self.pcset.insert(t); } else { self.add_pc(t); }
            return Ok(v);
        }
        match self.query(&[f]) {
            None => { return err("solver returned unknown"); }
            Some(Err(())) => { self.implied.push(true); self.pcset.insert(t); }
            Some(Ok(m)) => {
                let mut imp = self.prefix(idx);
                imp.push(false);
                self.note_fork("branch");
                self.new_items.push(Item { model: m, bound: idx + 1, excl: vec![], implied: imp, hash: mixh(h0, 2 + !v as u64) });
                self.implied.push(false);
                self.add_pc(t);
            }
        }
        Ok(v)
    }

    fn concretize(&mut self, e: E) -> R<u128> {
        if let Some(k) = self.ar.is_k(e) { return Ok(k); }
        let w = self.ar.w(e);
        if w == 1 { return Ok(self.branch(e)? as u128); }
        let v = self.ar.eval(e, &self.model);
        let idx = self.at_decision()?;
        let h0 = self.hash;
        self.hash = mixh(h0, 0x1000 + v as u64);
        let kv = self.ar.k(w, v);
        let c = self.ar.cmp(O::Eq, e, kv);
        if idx < self.bound {
            if !self.implied[idx] { self.add_pc(c); }
            return Ok(v);
        }
        let mut excl = if idx == self.bound { std::mem::take(&mut self.excl) } else { vec![] };
        excl.push(v);
        let mut neg = vec![];
        for x in &excl {
            let kx = self.ar.k(w, *x);
            let q = self.ar.cmp(O::Eq, e, kx);
            neg.push(self.ar.not(q));
        }
        if excl.len() > 4096 { return err("concretize: more than 4096 values"); }
        match self.query(&neg) {
            None => return err("solver returned unknown"),
            Some(Err(())) => {
                if excl.len() == 1 { self.implied.push(true); } else { self.implied.push(false); self.add_pc(c); }
            }
            Some(Ok(m)) => {
                let imp = self.prefix(idx);
                self.note_fork("value");
                self.new_items.push(Item { model: m, bound: idx, excl, implied: imp, hash: h0 });
                self.implied.push(false);
                self.add_pc(c);
            }
        }
        Ok(v)
    }

    /// multi-way decision: conds are exclusive and exhaustive
    fn multi(&mut self, conds: &[E]) -> R<usize> {
        let mut taken = None;
        for (i, c) in conds.iter().enumerate() {
            if self.ar.eval(*c, &self.model) == 1 { taken = Some(i); break; }
        }
        let t = match taken { Some(t) => t, None => return err("switch: no case") };
        if self.ar.is_k(conds[t]).is_some() { return Ok(t); }
        let idx = self.at_decision()?;
        let h0 = self.hash;
        self.hash = mixh(h0, 0x2000 + t as u64);
        if idx < self.bound {
            if !self.implied[idx] { self.add_pc(conds[t]); }
            return Ok(t);
        }
        let mut only = true;
        for (i, c) in conds.iter().enumerate() {
            if i == t { continue; }
            match self.query(&[*c]) {
                None => return err("solver returned unknown"),
                Some(Err(())) => {}
                Some(Ok(m)) => {
                    only = false;
                    let mut imp = self.prefix(idx);
                    imp.push(false);
                    self.note_fork("switch");
                    self.new_items.push(Item { model: m, bound: idx + 1, excl: vec![], implied: imp, hash: mixh(h0, 0x2000 + i as u64) });
                }
            }
        }
        self.implied.push(only);
        if !only { self.add_pc(conds[t]); }
        Ok(t)
    }

    fn assume(&mut self, c: E) -> R<()> {
        if let Some(k) = self.ar.is_k(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::End(End::Killed)) };
        }
        if self.ar.eval(c, &self.model) == 1 {
            self.add_pc(c);
            return Ok(());
        }
        match self.query(&[c]) {
            None => err("solver returned unknown"),
            Some(Err(())) => Err(Stop::End(End::Killed)),
            Some(Ok(m)) => {
                if self.ndec < self.bound { return err("assume failed inside the prefix"); }
                let imp = self.prefix(self.ndec);
                let h = self.hash;
                self.new_items.push(Item { model: m, bound: self.ndec, excl: vec![], implied: imp, hash: h });
                Err(Stop::End(End::Killed))
            }
        }
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let k = self.objs.len() as u32;
        self.objs.push(Obj { data: vec![0; size as usize], sym: None, freed: false, heap });
        (gaddr(self.m.globals.len() as u32 + k)) as u64
    }

    fn resolve(&self, addr: u64) -> Option<(u32, u64)> {
        let hi = addr >> 32;
        if hi == 0 { return None; }
        Some((hi as u32 - 1, addr & 0xffff_ffff))
    }

    fn check_range(&self, addr: u64, n: u64) -> R<(u32, u64)> {
        let (o, off) = match self.resolve(addr) { Some(x) => x, None => return err(format!("access to address {addr:#x}")) };
        let ng = self.m.globals.len() as u32;
        let len;
        if o < ng {
            len = match self.gl.get(&o) {
                Some(ob) => ob.data.len() as u64,
                None => match &self.m.globals[o as usize].kind { GlobalKind::Data { bytes } => bytes.len() as u64, _ => 0 },
            };
        } else {
            let ob = match self.objs.get((o - ng) as usize) { Some(x) => x, None => return err(format!("access to address {addr:#x}")) };
            if ob.freed { return err(format!("use after free at {addr:#x}")); }
            len = ob.data.len() as u64;
        }
        if off + n > len { return err(format!("out of bounds access: offset {off} size {n} in object of {len} bytes (object {o})")); }
        Ok((o, off))
    }

    fn obj(&self, o: u32) -> (&[u8], Option<&[E]>) {
        let ng = self.m.globals.len() as u32;
        if o < ng {
            match self.gl.get(&o) {
                Some(ob) => (&ob.data, ob.sym.as_deref()),
                None => match &self.m.globals[o as usize].kind { GlobalKind::Data { bytes } => (bytes, None), _ => (&[], None) },
            }
        } else {
            let ob = &self.objs[(o - ng) as usize];
            (&ob.data, ob.sym.as_deref())
        }
    }

    fn obj_mut(&mut self, o: u32) -> &mut Obj {
        let ng = self.m.globals.len() as u32;
        if o < ng {
            let m = self.m;
            self.gl.entry(o).or_insert_with(|| {
                let data = match &m.globals[o as usize].kind { GlobalKind::Data { bytes } => bytes.clone(), _ => vec![] };
                Obj { data, sym: None, freed: false, heap: false }
            })
        } else {
            &mut self.objs[(o - ng) as usize]
        }
    }

    fn byte_e(&mut self, o: u32, off: usize) -> E {
        let (d, s) = self.obj(o);
        if let Some(s) = s {
            if s[off] != 0 { return s[off]; }
        }
        let v = d[off];
        self.ar.k(8, v as u128)
    }

    fn load_int(&mut self, o: u32, off: u64, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        let off = off as usize;
        let (d, s) = self.obj(o);
        let symb = match s { Some(s) => s[off..off + n].iter().any(|x| *x != 0), None => false };
        if !symb {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | d[off + i] as u128; }
            return V::C(v & mask(w));
        }
        let mut e = self.byte_e(o, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte_e(o, off + i);
            e = self.ar.concat(e, b);
        }
        if w != n as u32 * 8 { e = self.ar.extract(e, 0, w); }
        self.from_e(e)
    }

    fn store_int(&mut self, o: u32, off: u64, w: u32, v: &V) {
        let n = ((w + 7) / 8) as usize;
        let off = off as usize;
        match v {
            V::C(x) => {
                let ob = self.obj_mut(o);
                let b = x.to_le_bytes();
                ob.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut ob.sym { for i in 0..n { s[off + i] = 0; } }
            }
            V::S(e) => {
                let e = self.ar.zext(*e, n as u32 * 8);
                for i in 0..n {
                    let x = self.ar.extract(e, i as u32 * 8, 8);
                    let k = self.ar.is_k(x);
                    let ob = self.obj_mut(o);
                    if let Some(k) = k {
                        ob.data[off + i] = k as u8;
                        if let Some(s) = &mut ob.sym { s[off + i] = 0; }
                    } else {
                        let l = ob.data.len();
                        ob.sym.get_or_insert_with(|| vec![0; l].into_boxed_slice())[off + i] = x;
                    }
                }
            }
            V::A(_) => unreachable!(),
        }
    }

    fn from_e(&self, e: E) -> V {
        match self.ar.is_k(e) { Some(k) => V::C(k), None => V::S(e) }
    }
    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v { V::C(k) => self.ar.k(w, *k), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }

    fn load_ty(&mut self, addr: u64, t: &Ty) -> R<V> {
        let (o, off) = self.check_range(addr, t.store_size())?;
        Ok(self.load_at(o, off, t))
    }
    fn load_at(&mut self, o: u32, off: u64, t: &Ty) -> V {
        match t {
            Ty::Int(w) | Ty::Float(w) => self.load_int(o, off, *w),
            Ty::Ptr => self.load_int(o, off, 64),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let total = self.load_int(o, off, (e.bits() * n) as u32);
                let mut v = vec![];
                for i in 0..*n as u32 {
                    let w = e.bits() as u32;
                    v.push(match &total {
                        V::C(x) => V::C((x >> (i * w)) & mask(w)),
                        V::S(x) => { let y = self.ar.extract(*x, i * w, w); self.from_e(y) }
                        _ => unreachable!(),
                    });
                }
                V::A(Arc::new(v))
            }
            _ => {
                let n = t.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (fo, ft) = t.field(i);
                    v.push(self.load_at(o, off + fo, &ft));
                }
                V::A(Arc::new(v))
            }
        }
    }
    fn store_ty(&mut self, addr: u64, t: &Ty, v: &V) -> R<()> {
        let (o, off) = self.check_range(addr, t.store_size())?;
        self.store_at(o, off, t, v);
        Ok(())
    }
    fn store_at(&mut self, o: u32, off: u64, t: &Ty, v: &V) {
        match t {
            Ty::Int(w) | Ty::Float(w) => self.store_int(o, off, *w, v),
            Ty::Ptr => self.store_int(o, off, 64, v),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let w = e.bits() as u32;
                if let V::A(vs) = v {
                    let mut acc = self.ar.k(w, 0);
                    for i in 0..*n as usize {
                        let x = self.to_e(&vs[i], w);
                        acc = if i == 0 { x } else { self.ar.concat(x, acc) };
                    }
                    let tw = (w as u64 * n) as u32;
                    let x = self.from_e(acc);
                    self.store_int(o, off, tw, &x);
                }
            }
            _ => {
                let n = t.nfields();
                if let V::A(vs) = v {
                    for i in 0..n {
                        let (fo, ft) = t.field(i);
                        let x = vs[i].clone();
                        self.store_at(o, off + fo, &ft, &x);
                    }
                } else { panic!("store aggregate"); }
            }
        }
    }

    /// a pointer value as a concrete address, forking if need be
    fn addr(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x as u64),
            V::S(e) => Ok(self.concretize(*e)? as u64),
            _ => err("aggregate pointer"),
        }
    }
    fn cint(&mut self, v: &V) -> R<u64> { self.addr(v) }

    fn load(&mut self, p: &V, t: &Ty) -> R<V> {
        if let V::S(e) = p {
            if let Some(v) = self.sym_load(*e, t)? { return Ok(v); }
        }
        let a = self.addr(p)?;
        self.load_ty(a, t)
    }

    /// load through a symbolic address: one object, all candidate offsets as an if-then-else
    fn sym_load(&mut self, e: E, t: &Ty) -> R<Option<V>> {
        let w = match t { Ty::Int(w) => *w, _ => return Ok(None) };
        let n = t.store_size();
        if self.cfg.ite_max == 0 { return Ok(None); }
        // which object: a decision of its own, so that it does not depend on the current model
        let (least, most) = self.ar.bounds(e, 12);
        let hi = if least >> 32 == most >> 32 { (most >> 32) as u64 } else {
            if std::env::var("SEMIR_SEL").is_ok() { self.ar.show(e); }
            let hi = self.ar.extract(e, 32, 32);
            self.concretize(hi)? as u64
        };
        let (o, _) = match self.check_range(hi << 32, 0) { Ok(x) => x, Err(_) => return Ok(None) };
        let len = self.obj(o).0.len() as u64;
        if len > self.cfg.ite_max || len < n { return Ok(None); }
        let base = gaddr(o) as u64;
        // does the address stay in the object?
        let kb = self.ar.k(64, base as u128);
        let ke = self.ar.k(64, (base + len - n + 1) as u128);
        let lo = self.ar.cmp(O::Ult, e, kb);
        let lo = self.ar.not(lo);
        let hi = self.ar.cmp(O::Ult, e, ke);
        let inn = self.ar.bin(O::And, lo, hi);
        if (least < base as u128 || most > (base + len - n) as u128) && !self.branch(inn)? { return Ok(None); }
        if let (true, Some(var)) = (self.ar.tab, self.ar.single(e)) {
            // a table looked up by one input byte is again a function of it
            let at = self.ar.table(e);
            let mut t: Table = [0; 256];
            let mut fine = true;
            for i in 0..256 {
                let off = (at[i] as u64).wrapping_sub(base);
                if off > len - n { continue; }
                match self.load_int(o, off, w) { V::C(x) => t[i] = x, _ => { fine = false; break } }
            }
            if fine {
                if let Some(x) = self.ar.from_table(&t, w, var, 32) { return Ok(Some(self.from_e(x))); }
            }
        }
        if self.cfg.sel && w >= 8 && w <= 64 && self.obj(o).1.map_or(true, |s| s.iter().all(|x| *x == 0)) {
            let kb = self.ar.k(64, base as u128);
            let d = self.ar.bin(O::Sub, e, kb);
            let z = self.ar.low_zeros(d).min(6);
            let last = (len - n) >> z;
            let i = self.ar.extract(d, z, (64 - last.leading_zeros()).max(1));
            let fixed = (o as usize) < self.m.globals.len() && !self.gl.contains_key(&o);
            let kept = if fixed { self.sel_memo.get(&(o, w, z)).copied() } else { None };
            let t = match kept {
                Some(t) => t,
                None => {
                    let mut t = vec![];
                    for j in 0..=last {
                        match self.load_int(o, j << z, w) { V::C(x) => t.push(x), _ => return err("a table of constants") }
                    }
                    let t = self.ar.sel_new(w, t);
                    if fixed { self.sel_memo.insert((o, w, z), t); }
                    t
                }
            };
            let x = self.ar.sel(w, i, t);
            return Ok(Some(self.from_e(x)));
        }
        let mut acc: Option<E> = None;
        for off in (0..=(len - n)).rev() {
            let k = self.ar.k(64, (base + off) as u128);
            let c = self.ar.cmp(O::Eq, e, k);
            if self.ar.is_k(c) == Some(0) { continue; }
            let v = self.load_int(o, off, w);
            let v = self.to_e(&v, w);
            acc = Some(match acc { None => v, Some(x) => self.ar.ite(c, v, x) });
        }
        Ok(acc.map(|x| self.from_e(x)))
    }

    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.check_range(s, n)?;
        let (dof, doff) = self.check_range(d, n)?;
        let (sd, ss) = self.obj(so);
        let (a, b) = (soff as usize, (soff + n) as usize);
        let bytes = sd[a..b].to_vec();
        let syms: Option<Vec<E>> = match ss { Some(x) if x[a..b].iter().any(|y| *y != 0) => Some(x[a..b].to_vec()), _ => None };
        let ob = self.obj_mut(dof);
        let (a, b) = (doff as usize, (doff + n) as usize);
        ob.data[a..b].copy_from_slice(&bytes);
        match (syms, &mut ob.sym) {
            (None, None) => {}
            (None, Some(x)) => for y in &mut x[a..b] { *y = 0; },
            (Some(v), x) => {
                let l = ob.data.len();
                x.get_or_insert_with(|| vec![0; l].into_boxed_slice())[a..b].copy_from_slice(&v);
            }
        }
        Ok(())
    }

    fn bytes_e(&mut self, addr: u64, n: u64) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.check_range(addr, n)?;
        Ok((0..n).map(|i| self.byte_e(o, (off + i) as usize)).collect())
    }
    /// bytes under the current model
    fn bytes_model(&mut self, addr: u64, n: u64) -> R<Vec<u8>> {
        let v = self.bytes_e(addr, n)?;
        let m = std::mem::take(&mut self.model);
        let r = v.iter().map(|e| self.ar.eval(*e, &m) as u8).collect();
        self.model = m;
        Ok(r)
    }

    // ---------------------------------------------------------------- execution

    #[inline]
    fn get(&self, base: usize, op: &Op) -> V {
        match op {
            Op::R(r) => self.regs[base + *r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&mut self, base: usize, r: u32, v: V) { self.regs[base + r as usize] = v; }

    fn goto(&mut self, b: u32) -> R<()> {
        let fi = self.frames.len() - 1;
        let (f, base, from) = { let x = &self.frames[fi]; (x.f, x.base, x.blk) };
        let m = self.m;
        let blk = &m.funcs[f as usize].blocks[b as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &blk.phis[0];
                let mut done = false;
                for (p, v) in inc { if *p == from { let v = self.get(base, v); self.set(base, *d, v); done = true; break; } }
                if !done { return err("phi: no incoming"); }
            }
            _ => {
                let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
                for (d, inc) in &blk.phis {
                    let mut done = false;
                    for (p, v) in inc { if *p == from { vals.push((*d, self.get(base, v))); done = true; break; } }
                    if !done { return err("phi: no incoming"); }
                }
                for (d, v) in vals { self.set(base, d, v); }
            }
        }
        let fr = &mut self.frames[fi];
        fr.blk = b;
        fr.ip = 0;
        Ok(())
    }

    fn push_frame(&mut self, f: u32, args: Vec<V>, ret_dst: Option<u32>, cont: Option<u32>) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if let Some(e) = &fun.error { return err(format!("function {} not parsed: {e}", fun.name)); }
        self.stack_used += 48;
        if self.stack_used > STACK { return Err(Stop::End(End::Violation("stack overflow".into()))); }
        self.seen_funcs[f as usize] = true;
        let base = self.regs.len();
        self.regs.resize(base + fun.nregs as usize, V::C(0));
        if args.len() < fun.params.len() { return err("too few arguments"); }
        for ((_, r), v) in fun.params.iter().zip(args) { self.regs[base + *r as usize] = v; }
        self.frames.push(Frame { f, base, blk: 0, ip: 0, ret_dst, cont, allocas: vec![], used: 48 });
        Ok(())
    }

    fn bin1(&mut self, b: Bin, w: u32, x: &V, y: &V) -> R<V> {
        let o = match b {
            Bin::Add => O::Add, Bin::Sub => O::Sub, Bin::Mul => O::Mul, Bin::UDiv => O::UDiv, Bin::SDiv => O::SDiv, Bin::URem => O::URem,
            Bin::SRem => O::SRem, Bin::And => O::And, Bin::Or => O::Or, Bin::Xor => O::Xor, Bin::Shl => O::Shl, Bin::LShr => O::LShr, Bin::AShr => O::AShr,
        };
        if let (V::C(p), V::C(q)) = (x, y) {
            if matches!(b, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && *q == 0 { return err("division by zero (undefined behaviour)"); }
            return Ok(V::C(fold(o, w, *p, *q)));
        }
        let (p, q) = (self.to_e(x, w), self.to_e(y, w));
        let r = self.ar.bin(o, p, q);
        Ok(self.from_e(r))
    }
    fn icmp1(&mut self, pr: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            let r = match pr {
                Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
                Pred::Slt => sa < sb, Pred::Sle => sa <= sb, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb,
            };
            return V::C(r as u128);
        }
        let (a, b) = (self.to_e(x, w), self.to_e(y, w));
        let e = match pr {
            Pred::Eq => self.ar.cmp(O::Eq, a, b),
            Pred::Ne => { let t = self.ar.cmp(O::Eq, a, b); self.ar.not(t) }
            Pred::Ult => self.ar.cmp(O::Ult, a, b),
            Pred::Ugt => self.ar.cmp(O::Ult, b, a),
            Pred::Ule => { let t = self.ar.cmp(O::Ult, b, a); self.ar.not(t) }
            Pred::Uge => { let t = self.ar.cmp(O::Ult, a, b); self.ar.not(t) }
            Pred::Slt => self.ar.cmp(O::Slt, a, b),
            Pred::Sgt => self.ar.cmp(O::Slt, b, a),
            Pred::Sle => { let t = self.ar.cmp(O::Slt, b, a); self.ar.not(t) }
            Pred::Sge => { let t = self.ar.cmp(O::Slt, a, b); self.ar.not(t) }
        };
        self.from_e(e)
    }
    fn cast1(&mut self, k: Cast, f: u32, t: u32, x: &V) -> V {
        match x {
            V::C(v) => V::C(match k {
                Cast::Trunc => v & mask(t),
                Cast::ZExt | Cast::Same => *v,
                Cast::SExt => (sx(*v, f) as u128) & mask(t),
            }),
            V::S(e) => {
                let r = match k {
                    Cast::Trunc => self.ar.extract(*e, 0, t),
                    Cast::ZExt => self.ar.zext(*e, t),
                    Cast::SExt => self.ar.sext(*e, t),
                    Cast::Same => *e,
                };
                self.from_e(r)
            }
            V::A(_) => panic!("cast1 of aggregate"),
        }
    }
    fn select1(&mut self, c: &V, a: &V, b: &V, t: &Ty) -> R<V> {
        match c {
            V::C(1) => Ok(a.clone()),
            V::C(_) => Ok(b.clone()),
            V::S(e) => {
                if let (V::C(x), V::C(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                // wide values are lengths, counts and addresses: decide them now
                if t.is_agg() || t.bits() as u32 >= self.cfg.fork_wide {
                    return Ok(if self.branch(*e)? { a.clone() } else { b.clone() });
                }
                if *t == Ty::Ptr {
                    // pointers into different objects: decide now
                    let same = match (a, b) { (V::C(x), V::C(y)) => (x >> 32) == (y >> 32), _ => true };
                    if !same { return Ok(if self.branch(*e)? { a.clone() } else { b.clone() }); }
                }
                let w = t.bits() as u32;
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.ar.ite(*e, x, y);
                Ok(self.from_e(r))
            }
            V::A(_) => err("select1"),
        }
    }

    fn exec(&mut self, entry: u32) -> R<()> {
        self.push_frame(entry, vec![], None, None)?;
        let m = self.m;
        let limit = self.cfg.max_instrs;
        loop {
            let fi = self.frames.len() - 1;
            let (f, base, blk, ip) = { let x = &mut self.frames[fi]; let r = (x.f, x.base, x.blk, x.ip); x.ip += 1; r };
            self.instrs += 1;
            if self.instrs > limit { return Err(Stop::End(End::Violation(format!("no termination within {limit} instructions")))); }
            let ins = match m.funcs[f as usize].blocks[blk as usize].ins.get(ip) { Some(i) => i, None => return err("fell off block") };
            match ins {
                I::Bin(b, w, x, y, d) => {
                    let (x, y) = (self.get(base, x), self.get(base, y));
                    let r = match (&x, &y) {
                        (V::A(p), V::A(q)) => {
                            let mut v = Vec::with_capacity(p.len());
                            for (i, j) in p.iter().zip(q.iter()) { v.push(self.bin1(*b, *w, i, j)?); }
                            V::A(Arc::new(v))
                        }
                        _ => {
                            if matches!(b, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                                if let V::S(e) = &y {
                                    let z = self.ar.k(*w, 0);
                                    let c = self.ar.cmp(O::Eq, *e, z);
                                    if self.branch(c)? { return err("division by zero (undefined behaviour)"); }
                                }
                            }
                            self.bin1(*b, *w, &x, &y)?
                        }
                    };
                    self.set(base, *d, r);
                }
                I::ICmp(p, w, x, y, d) => {
                    let (x, y) = (self.get(base, x), self.get(base, y));
                    let r = match (&x, &y) {
                        (V::A(a), V::A(b)) => V::A(Arc::new(a.iter().zip(b.iter()).map(|(i, j)| self.icmp1(*p, *w, i, j)).collect())),
                        _ => self.icmp1(*p, *w, &x, &y),
                    };
                    self.set(base, *d, r);
                }
                I::FBin(k, w, x, y, d) => {
                    let (x, y) = (self.get(base, x), self.get(base, y));
                    let r = if *k == FBin::Neg {
                        self.bin1(Bin::Xor, *w, &x, &V::C(1u128 << (*w - 1)))?
                    } else {
                        let (x, y) = (self.cint(&x)?, self.cint(&y)?);
                        V::C(float_bin(*k, *w, x, y) as u128)
                    };
                    self.set(base, *d, r);
                }
                I::FCmp(k, w, x, y, d) => {
                    let (x, y) = (self.get(base, x), self.get(base, y));
                    let (x, y) = (self.cint(&x)?, self.cint(&y)?);
                    let (x, y) = (to_f64(*w, x), to_f64(*w, y));
                    let bit = match x.partial_cmp(&y) { Some(Ordering::Equal) => 1, Some(Ordering::Greater) => 2, Some(Ordering::Less) => 4, None => 8 };
                    self.set(base, *d, V::C((k & bit != 0) as u128));
                }
                I::FCast(k, fw, tw, x, d) => {
                    let x = self.get(base, x);
                    let x = self.cint(&x)?;
                    self.set(base, *d, V::C(float_cast(*k, *fw, *tw, x)));
                }
                I::Cast(k, fw, tw, x, d) => {
                    let x = self.get(base, x);
                    let r = match &x {
                        V::S(e) if *fw == 1 && *tw >= self.cfg.fork_wide && *k != Cast::Trunc => {
                            let b = self.branch(*e)?;
                            self.cast1(*k, *fw, *tw, &V::C(b as u128))
                        }
                        V::A(a) => V::A(Arc::new(a.iter().map(|i| self.cast1(*k, *fw, *tw, i)).collect())),
                        _ => self.cast1(*k, *fw, *tw, &x),
                    };
                    self.set(base, *d, r);
                }
                I::BitCast(t1, t2, x, d) => {
                    let x = self.get(base, x);
                    let r = self.bitcast(t1, t2, x)?;
                    self.set(base, *d, r);
                }
                I::Load(t, p, d) => {
                    let p = self.get(base, p);
                    let v = self.load(&p, t)?;
                    self.set(base, *d, v);
                }
                I::Store(t, v, p) => {
                    let (v, p) = (self.get(base, v), self.get(base, p));
                    let a = self.addr(&p)?;
                    self.store_ty(a, t, &v)?;
                }
                I::Alloca(sz, _al, n, d) => {
                    let n = self.get(base, n);
                    let n = self.cint(&n)?;
                    let a = self.alloc(sz * n, false);
                    let k = (a >> 32) as u32 - 1 - self.m.globals.len() as u32;
                    self.frames[fi].allocas.push(k);
                    self.frames[fi].used += sz * n;
                    self.stack_used += sz * n;
                    self.set(base, *d, V::C(a as u128));
                }
                I::Gep(b, off, idx, d) => {
                    let mut cur = self.get(base, b);
                    if *off != 0 {
                        cur = self.bin1(Bin::Add, 64, &cur, &V::C(*off as u64 as u128))?;
                    }
                    for (i, w, scale) in idx {
                        let i = self.get(base, i);
                        let i = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i) } else { i };
                        let t = if *scale == 1 { i } else { self.bin1(Bin::Mul, 64, &i, &V::C(*scale as u64 as u128))? };
                        cur = self.bin1(Bin::Add, 64, &cur, &t)?;
                    }
                    self.set(base, *d, cur);
                }
                I::Select(c, a, b, t, d) => {
                    let (c, a, b) = (self.get(base, c), self.get(base, a), self.get(base, b));
                    let r = match &c {
                        V::A(cs) => {
                            let et = match t { Ty::Vec(_, e) => (**e).clone(), _ => return err("vector select") };
                            if let (V::A(x), V::A(y)) = (&a, &b) {
                                let mut v = vec![];
                                for i in 0..cs.len() { v.push(self.select1(&cs[i], &x[i], &y[i], &et)?); }
                                V::A(Arc::new(v))
                            } else { return err("vector select") }
                        }
                        _ => self.select1(&c, &a, &b, t)?,
                    };
                    self.set(base, *d, r);
                }
                I::Br(b) => self.goto(*b)?,
                I::CondBr(c, a, b) => {
                    let t = match self.get(base, c) {
                        V::C(x) => x == 1,
                        V::S(e) => self.branch(e)?,
                        _ => return err("br"),
                    };
                    self.goto(if t { *a } else { *b })?
                }
                I::Switch(w, c, cases, def) => {
                    let target = match self.get(base, c) {
                        V::C(x) => cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*def),
                        V::S(e) => {
                            let mut targets: Vec<(u32, E)> = vec![];
                            let mut any = self.ar.k(1, 0);
                            for (k, b) in cases {
                                let kk = self.ar.k(*w, *k);
                                let q = self.ar.cmp(O::Eq, e, kk);
                                any = self.ar.bin(O::Or, any, q);
                                match targets.iter_mut().find(|(t, _)| t == b) {
                                    Some((_, old)) => *old = self.ar.bin(O::Or, *old, q),
                                    None => targets.push((*b, q)),
                                }
                            }
                            let rest = self.ar.not(any);
                            match targets.iter_mut().find(|(t, _)| t == def) {
                                Some((_, old)) => *old = self.ar.bin(O::Or, *old, rest),
                                None => targets.push((*def, rest)),
                            }
                            let cs: Vec<E> = targets.iter().map(|x| x.1).collect();
                            targets[self.multi(&cs)?].0
                        }
                        _ => return err("switch"),
                    };
                    self.goto(target)?
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|v| self.get(base, v));
                    let fr = self.frames.pop().unwrap();
                    self.stack_used -= fr.used;
                    for k in &fr.allocas { let o = &mut self.objs[*k as usize]; o.freed = true; o.data = vec![]; o.sym = None; }
                    self.regs.truncate(fr.base);
                    if self.frames.is_empty() { return Ok(()); }
                    let nb = self.frames.last().unwrap().base;
                    if let (Some(d), Some(v)) = (fr.ret_dst, v) { self.set(nb, d, v); }
                    if let Some(b) = fr.cont { self.goto(b)?; }
                }
                I::Unreachable => return err("unreachable executed (undefined behaviour)"),
                I::Call(c) => self.call(base, c)?,
                I::ExtractValue(a, ix, d) => {
                    let mut v = self.get(base, a);
                    for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return err("extractvalue") }; }
                    self.set(base, *d, v);
                }
                I::InsertValue(a, v, ix, d) => {
                    let a = self.get(base, a);
                    let v = self.get(base, v);
                    fn ins(a: &V, ix: &[u32], v: V) -> V {
                        if ix.is_empty() { return v; }
                        match a {
                            V::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&x[ix[0] as usize], &ix[1..], v); V::A(Arc::new(y)) }
                            _ => panic!("insertvalue"),
                        }
                    }
                    let r = ins(&a, ix, v);
                    self.set(base, *d, r);
                }
                I::ExtractElement(a, i, d) => {
                    let a = self.get(base, a);
                    let i = self.get(base, i);
                    let i = self.cint(&i)? as usize;
                    match &a { V::A(x) => { let v = x[i].clone(); self.set(base, *d, v) } _ => return err("extractelement") }
                }
                I::InsertElement(a, v, i, d) => {
                    let a = self.get(base, a);
                    let v = self.get(base, v);
                    let i = self.get(base, i);
                    let i = self.cint(&i)? as usize;
                    match &a { V::A(x) => { let mut y = (**x).clone(); y[i] = v; self.set(base, *d, V::A(Arc::new(y))) } _ => return err("insertelement") }
                }
                I::Shuffle(a, b, mk, d) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    if let (V::A(x), V::A(y)) = (&a, &b) {
                        let v = mk.iter().map(|i| if *i < 0 { V::C(0) } else if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                        self.set(base, *d, V::A(Arc::new(v)));
                    } else { return err("shuffle") }
                }
                I::Freeze(a, d) => { let v = self.get(base, a); self.set(base, *d, v); }
                I::Rmw(op, t, p, v, d) => {
                    let (p, v) = (self.get(base, p), self.get(base, v));
                    let a = self.addr(&p)?;
                    let old = self.load_ty(a, t)?;
                    let w = t.bits() as u32;
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin1(Bin::Add, w, &old, &v)?,
                        "sub" => self.bin1(Bin::Sub, w, &old, &v)?,
                        "and" => self.bin1(Bin::And, w, &old, &v)?,
                        "or" => self.bin1(Bin::Or, w, &old, &v)?,
                        "xor" => self.bin1(Bin::Xor, w, &old, &v)?,
                        o => return err(format!("atomicrmw {o}")),
                    };
                    self.store_ty(a, t, &nv)?;
                    self.set(base, *d, old);
                }
                I::CmpXchg(t, p, c, n, d) => {
                    let (p, c, n) = (self.get(base, p), self.get(base, c), self.get(base, n));
                    let a = self.addr(&p)?;
                    let old = self.load_ty(a, t)?;
                    let eq = self.icmp1(Pred::Eq, t.bits() as u32, &old, &c);
                    let ok = match eq { V::C(x) => x == 1, V::S(e) => self.branch(e)?, _ => return err("cmpxchg") };
                    if ok { self.store_ty(a, t, &n)?; }
                    self.set(base, *d, V::A(Arc::new(vec![old, V::C(ok as u128)])));
                }
                I::Nop => {}
                I::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
            }
        }
    }

    fn bitcast(&mut self, t1: &Ty, t2: &Ty, v: V) -> R<V> {
        if !t1.is_agg() && !t2.is_agg() { return Ok(v); }
        // to one integer
        let total = match (&v, t1) {
            (V::A(x), Ty::Vec(_, e)) => {
                let w = e.bits() as u32;
                if w * x.len() as u32 > 128 { return err("wide bitcast"); }
                if x.iter().all(|y| matches!(y, V::C(_))) {
                    let mut acc = 0u128;
                    for y in x.iter().rev() { if let V::C(k) = y { acc = (if w >= 128 { 0 } else { acc << w }) | k; } }
                    V::C(acc)
                } else {
                    let mut acc = self.to_e(&x[0].clone(), w);
                    for y in x.iter().skip(1) { let h = self.to_e(&y.clone(), w); acc = self.ar.concat(h, acc); }
                    self.from_e(acc)
                }
            }
            _ => v.clone(),
        };
        match t2 {
            Ty::Vec(n, e) => {
                let w = e.bits() as u32;
                let mut out = vec![];
                for i in 0..*n as u32 {
                    out.push(match &total {
                        V::C(k) => V::C((k >> (i * w)) & mask(w)),
                        V::S(x) => { let y = self.ar.extract(*x, i * w, w); self.from_e(y) }
                        _ => return err("bitcast"),
                    });
                }
                Ok(V::A(Arc::new(out)))
            }
            _ => Ok(total),
        }
    }

    fn finish_call(&mut self, base: usize, c: &CallI, v: Option<V>) -> R<()> {
        if let (Some(d), Some(v)) = (c.dst, v) { self.set(base, d, v); }
        if let Some(b) = c.normal { self.goto(b)?; }
        Ok(())
    }

    fn call(&mut self, base: usize, c: &CallI) -> R<()> {
        let gi = match &c.callee {
            Callee::Direct(g) => *g,
            Callee::Indirect(op) => {
                let v = self.get(base, op);
                let a = self.addr(&v)?;
                if a & 0xffff_ffff != 0 || a == 0 { return err(format!("call to address {a:#x}")); }
                let g = (a >> 32) as u32 - 1;
                if g as usize >= self.m.globals.len() { return err(format!("call to address {a:#x}")); }
                g
            }
            Callee::Asm => return self.finish_call(base, c, if c.ret == Ty::Void { None } else { Some(c.ret.zero()) }),
        };
        let st = self.stubs[gi as usize];
        let st = if st == Stub::BigDecimal {
            // the text of a number of more than 16 digits takes arithmetic wider than 128 bits
            let v = self.get(base, &c.args[0].1);
            let small = match &v {
                V::C(x) => *x < 10_000_000_000_000_000,
                _ => {
                    let e = self.to_e(&v, 128);
                    let k = self.ar.k(128, 10_000_000_000_000_000);
                    let q = self.ar.cmp(O::Ult, e, k);
                    self.branch(q)?
                }
            };
            if small { Stub::NoStub } else { st }
        } else { st };
        if st != Stub::NoStub {
            let r = self.stub(base, c, st, gi)?;
            return self.finish_call(base, c, r);
        }
        match &self.m.globals[gi as usize].kind {
            GlobalKind::Func(f) => {
                let f = *f;
                let mut args = Vec::with_capacity(c.args.len());
                for (_, a) in &c.args { args.push(self.get(base, a)); }
                self.push_frame(f, args, c.dst, c.normal)
            }
            _ => err(format!("call to external function {}", self.m.globals[gi as usize].name)),
        }
    }

    fn text(&mut self, p: &V, n: &V) -> R<String> {
        let (p, n) = (self.addr(p)?, self.cint(n)?);
        let b = self.bytes_model(p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn stub(&mut self, base: usize, c: &CallI, st: Stub, gi: u32) -> R<Option<V>> {
        use Stub::*;
        let a: Vec<V> = c.args.iter().map(|(_, x)| self.get(base, x)).collect();
        let w = c.args.first().map(|(t, _)| match t { Ty::Vec(_, e) => e.bits() as u32, Ty::Opaque => 0, t if t.is_agg() => 0, t => t.bits() as u32 }).unwrap_or(0);
        // element-wise vector forms of the arithmetic intrinsics
        let arith = matches!(st, Ctlz | Cttz | Ctpop | Bswap | BitRev | UAddSat | USubSat | SAddSat | SSubSat | UMin | UMax | SMin | SMax | Abs | Fshl | Fshr | Ucmp | Scmp);
        if arith {
            if let V::A(x) = &a[0] {
                let n = x.len();
                let mut out = vec![];
                for i in 0..n {
                    let lane: Vec<V> = a.iter().map(|v| match v { V::A(y) => y[i].clone(), s => s.clone() }).collect();
                    out.push(self.arith(st, w, &lane, &c.ret)?);
                }
                return Ok(Some(V::A(Arc::new(out))));
            }
            return Ok(Some(self.arith(st, w, &a, &c.ret)?));
        }
        Ok(match st {
            SeByte => {
                let i = self.nin;
                self.nin += 1;
                let e = self.ar.var(i);
                Some(V::S(e))
            }
            SeAssume | Assume => {
                match &a[0] {
                    V::C(x) => {
                        if st == SeAssume && *x == 0 { return Err(Stop::End(End::Killed)); }
                    }
                    V::S(e) => {
                        if st == SeAssume {
                            let ww = self.ar.w(*e);
                            let z = self.ar.k(ww, 0);
                            let q = self.ar.cmp(O::Eq, *e, z);
                            let q = self.ar.not(q);
                            self.assume(q)?;
                        }
                    }
                    _ => {}
                }
                None
            }
            SeFail => { let t = self.text(&a[0], &a[1])?; return Err(Stop::End(End::Violation(t))); }
            SeCheck => {
                self.st.checks += 1;
                match &a[0] {
                    V::C(x) => if *x == 0 { let t = self.text(&a[1], &a[2])?; return Err(Stop::End(End::Violation(t))); },
                    V::S(e) => {
                        let ww = self.ar.w(*e);
                        let z = self.ar.k(ww, 0);
                        let bad = self.ar.cmp(O::Eq, *e, z);
                        let good = self.ar.not(bad);
                        if !self.pcset.contains(&good) {
                            self.st.check_queries += 1;
                            if self.ar.eval(bad, &self.model) == 1 {
                                let t = self.text(&a[1], &a[2])?;
                                return Err(Stop::End(End::Violation(t)));
                            }
                            match self.query(&[bad]) {
                                None => return err("solver returned unknown"),
                                Some(Err(())) => {}
                                Some(Ok(m)) => {
                                    let t = self.text(&a[1], &a[2])?;
                                    let mut m = m;
                                    m.resize(m.len().max(self.nin as usize), 0);
                                    self.violations_soft.push((t, m));
                                    self.add_pc(good);
                                }
                            }
                        }
                    }
                    _ => return err("se_check"),
                }
                None
            }
            SeCover => { let t = self.text(&a[0], &a[1])?; self.covers.insert(t); None }
            SeTag => { let t = self.text(&a[0], &a[1])?; self.tags.push(t); None }
            SeObserve => {
                let (p, n) = (self.addr(&a[0])?, self.cint(&a[1])?);
                let b = self.bytes_model(p, n)?;
                self.obs.extend_from_slice(&(n as u32).to_le_bytes());
                self.obs.extend_from_slice(&b);
                None
            }
            SeConc => Some(match &a[0] { V::S(e) => V::C(self.concretize(*e)?), v => v.clone() }),
            Malloc => { let n = self.size(&a[0])?; self.heap(n)? }
            Calloc => { let n = self.cint(&a[0])?; let k = self.cint(&a[1])?; self.heap(n * k)? }
            PosixMemalign => {
                let n = self.size(&a[2])?;
                let p = self.heap(n)?.unwrap();
                let d = self.addr(&a[0])?;
                self.store_ty(d, &Ty::Ptr, &p)?;
                Some(V::C(0))
            }
            Realloc => {
                let p = self.addr(&a[0])?;
                let n = self.size(&a[1])?;
                let q = self.heap(n)?.unwrap();
                if p != 0 {
                    let (o, _) = self.check_range(p, 0)?;
                    let old = self.obj(o).0.len() as u64;
                    let qa = match q { V::C(x) => x as u64, _ => 0 };
                    self.memcpy(qa, p, old.min(n))?;
                    self.free(p)?;
                }
                Some(q)
            }
            Free => { let p = self.addr(&a[0])?; if p != 0 { self.free(p)?; } None }
            Memcmp | Bcmp => {
                let (p, q, n) = (self.addr(&a[0])?, self.addr(&a[1])?, self.cint(&a[2])?);
                let (x, y) = (self.bytes_e(p, n)?, self.bytes_e(q, n)?);
                Some(self.memcmp(&x, &y, st == Bcmp))
            }
            Memcpy => {
                if self.cfg.ite_max > 0 { if let (V::S(_), V::C(n @ (1 | 2 | 4 | 8))) = (&a[1], &a[2]) {
                    // a table lookup
                    let t = Ty::Int(*n as u32 * 8);
                    let v = self.load(&a[1], &t)?;
                    let d = self.addr(&a[0])?;
                    self.store_ty(d, &t, &v)?;
                    return Ok(Some(a[0].clone()));
                } }
                let n = self.cint(&a[2])?;
                if n > 0 {
                    let (d, s) = (self.addr(&a[0])?, self.addr(&a[1])?);
                    self.memcpy(d, s, n)?;
                }
                Some(a[0].clone())
            }
            Memset => {
                let n = self.cint(&a[2])?;
                if n > 0 {
                    let d = self.addr(&a[0])?;
                    let (o, off) = self.check_range(d, n)?;
                    let v = match &a[1] { V::C(x) => V::C(x & 0xff), V::S(e) => { let x = self.ar.extract(*e, 0, 8); self.from_e(x) } _ => return err("memset") };
                    match &v {
                        V::C(x) => {
                            let x = *x as u8;
                            let ob = self.obj_mut(o);
                            let (a, b) = (off as usize, (off + n) as usize);
                            ob.data[a..b].fill(x);
                            if let Some(s) = &mut ob.sym { s[a..b].fill(0); }
                        }
                        _ => for i in 0..n { self.store_int(o, off + i, 8, &v); },
                    }
                }
                Some(a[0].clone())
            }
            Strlen => {
                let p = self.addr(&a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_ty(p + n, &Ty::Int(8))?;
                    if self.cint(&v)? == 0 { break; }
                    n += 1;
                }
                Some(V::C(n as u128))
            }
            Nop => None,
            Ret0 => Some(V::C(0)),
            RetArg0 => Some(a[0].clone()),
            RetArg2 => Some(a[2].clone()),
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let (x, y) = (&a[0], &a[1]);
                if let (V::C(p), V::C(q)) = (x, y) {
                    let (p, q) = (*p, *q);
                    let (sp, sq) = (sx(p, w), sx(q, w));
                    let m = mask(w);
                    let (r, o) = match st {
                        UAddO => { let (r, c) = p.overflowing_add(q); (r & m, c || r > m) }
                        USubO => (p.wrapping_sub(q) & m, p < q),
                        UMulO => { let (r, c) = p.overflowing_mul(q); (r & m, c || r > m) }
                        SAddO => { let (r, c) = sp.overflowing_add(sq); (r as u128 & m, c || sx(r as u128 & m, w) != r) }
                        SSubO => { let (r, c) = sp.overflowing_sub(sq); (r as u128 & m, c || sx(r as u128 & m, w) != r) }
                        _ => { let (r, c) = sp.overflowing_mul(sq); (r as u128 & m, c || sx(r as u128 & m, w) != r) }
                    };
                    Some(V::A(Arc::new(vec![V::C(r), V::C(o as u128)])))
                } else {
                    let (p, q) = (self.to_e(x, w), self.to_e(y, w));
                    let (op, signed) = match st { UAddO => (O::Add, false), USubO => (O::Sub, false), UMulO => (O::Mul, false), SAddO => (O::Add, true), SSubO => (O::Sub, true), _ => (O::Mul, true) };
                    let r = self.ar.bin(op, p, q);
                    let o = if st == USubO {
                        self.ar.cmp(O::Ult, p, q)
                    } else if op != O::Mul && signed {
                        let (a, b) = (self.ar.bin(O::Xor, p, r), self.ar.bin(O::Xor, if op == O::Add { q } else { p }, if op == O::Add { r } else { q }));
                        let c = self.ar.bin(O::And, a, b);
                        self.ar.extract(c, w - 1, 1)
                    } else if op == O::Add && w >= 128 {
                        self.ar.cmp(O::Ult, r, p)
                    } else if op == O::Mul && w > 64 && !signed && matches!((x, y), (V::C(_), _) | (_, V::C(_))) {
                        let (k, s) = match (x, y) { (V::C(k), _) => (*k, q), (_, V::C(k)) => (*k, p), _ => unreachable!() };
                        if k == 0 { self.ar.k(1, 0) } else {
                            let most = self.ar.k(w, mask(w) / k);
                            self.ar.cmp(O::Ult, most, s)
                        }
                    } else {
                        let ww = if op == O::Mul { w * 2 } else { w + 1 };
                        if ww > 128 { return err("wide overflow arithmetic"); }
                        let (pp, qq) = if signed { (self.ar.sext(p, ww), self.ar.sext(q, ww)) } else { (self.ar.zext(p, ww), self.ar.zext(q, ww)) };
                        let rr = self.ar.bin(op, pp, qq);
                        let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                        // cheap bound first
                        if !signed && self.ar.umax(rr, 8) <= mask(w) { self.ar.k(1, 0) } else {
                            let e = self.ar.cmp(O::Eq, rr, back);
                            self.ar.not(e)
                        }
                    };
                    let (r, o) = (self.from_e(r), self.from_e(o));
                    Some(V::A(Arc::new(vec![r, o])))
                }
            }
            IsConst => Some(V::C(0)),
            VecReduceOr | VecReduceAnd | VecReduceAdd => {
                let b = match st { VecReduceOr => Bin::Or, VecReduceAnd => Bin::And, _ => Bin::Add };
                if let V::A(x) = &a[0] {
                    let mut acc = x[0].clone();
                    for y in x.iter().skip(1) { acc = self.bin1(b, w, &acc, y)?; }
                    Some(acc)
                } else { return err("vector reduce") }
            }
            FAbs => {
                let w = ret_w(&c.ret);
                Some(self.bin1(Bin::And, w, &a[0], &V::C(mask(w - 1)))?)
            }
            FCeil | FFloor | FTrunc | FSqrt | FLog2 => {
                let w = ret_w(&c.ret);
                let x = self.cint(&a[0])?;
                let v = to_f64(w, x);
                let r = match st { FCeil => v.ceil(), FFloor => v.floor(), FTrunc => v.trunc(), FSqrt => v.sqrt(), _ => v.log2() };
                Some(V::C(if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
            }
            FpToUi | FpToSi => {
                let x = self.cint(&a[0])?;
                let fw = match c.args[0].0 { Ty::Float(w) => w, _ => return err("saturating cast") };
                Some(V::C(float_cast(if st == FpToUi { FCast::FpToUi } else { FCast::FpToSi }, fw, ret_w(&c.ret), x)))
            }
            FloatText => Some(V::C(0)),
            BigDecimal => {
                let n = match &a[0] { V::C(x) => *x, V::S(e) => { let e = *e; self.concretize(e)? } _ => return err("decimal") };
                let (p, len) = (self.addr(&a[1])?, self.cint(&a[2])?);
                let s = n.to_string();
                if s.len() as u64 > len { return err("decimal: no room"); }
                let at = len - s.len() as u64;
                for (i, b) in s.bytes().enumerate() { self.store_ty(p + at + i as u64, &Ty::Int(8), &V::C(b as u128))?; }
                Some(V::C(at as u128))
            }
            AddCarry | SubBorrow => {
                let x: Vec<E> = (0..3).map(|i| { let e = self.to_e(&a[i], if i == 0 { 8 } else { 64 }); e }).collect();
                let z = self.ar.k(8, 0);
                let c = self.ar.cmp(O::Eq, x[0], z);
                let c = self.ar.not(c);
                let (c, p, q) = (self.ar.zext(c, 66), self.ar.zext(x[1], 66), self.ar.zext(x[2], 66));
                let op = if st == AddCarry { O::Add } else { O::Sub };
                let r = self.ar.bin(op, p, q);
                let r = self.ar.bin(op, r, c);
                let (o, r) = (self.ar.extract(r, 64, 1), self.ar.extract(r, 0, 64));
                let o = self.ar.zext(o, 8);
                let (o, r) = (self.from_e(o), self.from_e(r));
                Some(V::A(Arc::new(vec![o, r])))
            }
            VecMask => {
                if let V::A(x) = &a[0] {
                    let mut acc: Option<E> = None;
                    for y in x.iter() {
                        let e = self.to_e(y, 8);
                        let b = self.ar.extract(e, 7, 1);
                        acc = Some(match acc { None => b, Some(z) => self.ar.concat(b, z) });
                    }
                    let e = self.ar.zext(acc.unwrap(), 32);
                    Some(self.from_e(e))
                } else { return err("movmsk") }
            }
            HashOne => Some(V::C(0x5a5a_1234_0000_0000)),
            RandKeys => {
                if c.ret == Ty::Void { None } else { Some(c.ret.zero()) }
            }
            Getrandom => { let n = self.cint(&a[1])?; Some(V::C(n as u128)) }
            Errno => {
                if self.errno == 0 { self.errno = self.alloc(8, false); }
                Some(V::C(self.errno as u128))
            }
            Panic => {
                let s = format!("panic in {} at {}", short(&self.m.globals[gi as usize].name), self.stack());
                return Err(Stop::End(End::Violation(s)));
            }
            _ => return err(format!("stub {st:?}")),
        })
    }

    /// The size of an allocation. One that depends on the input is rounded up to a few size classes; that
    /// accesses stay within what was asked for is then left to the (safe) code's own checks.
    fn size(&mut self, v: &V) -> R<u64> {
        let e = match v { V::S(e) => *e, _ => return self.cint(v) };
        let w = self.ar.w(e);
        for lim in [64u64, 4096, 1 << 16, 1 << 20, BIGGEST] {
            let k = self.ar.k(w, lim as u128 + 1);
            let c = self.ar.cmp(O::Ult, e, k);
            if self.branch(c)? { return Ok(lim); }
        }
        Ok(u64::MAX)
    }
    fn heap(&mut self, n: u64) -> R<Option<V>> {
        if n > BIGGEST { return Err(Stop::End(End::Violation("an allocation of more than 64 MiB".into()))); }
        Ok(Some(V::C(self.alloc(n, true) as u128)))
    }
    fn free(&mut self, p: u64) -> R<()> {
        let (o, off) = self.check_range(p, 0)?;
        let ng = self.m.globals.len() as u32;
        if o < ng || off != 0 || !self.objs[(o - ng) as usize].heap { return err("bad free"); }
        let ob = &mut self.objs[(o - ng) as usize];
        ob.freed = true;
        ob.data = vec![];
        ob.sym = None;
        Ok(())
    }

    fn memcmp(&mut self, x: &[E], y: &[E], eq_only: bool) -> V {
        if eq_only {
            let mut acc = self.ar.k(1, 1);
            for (p, q) in x.iter().zip(y) {
                let e = self.ar.cmp(O::Eq, *p, *q);
                acc = self.ar.bin(O::And, acc, e);
                if self.ar.is_k(acc) == Some(0) { break; }
            }
            let n = self.ar.not(acc);
            let r = self.ar.zext(n, 32);
            return self.from_e(r);
        }
        let mut acc = self.ar.k(32, 0);
        let (neg, pos) = (self.ar.k(32, 0xffff_ffff), self.ar.k(32, 1));
        for (p, q) in x.iter().zip(y).rev() {
            let e = self.ar.cmp(O::Eq, *p, *q);
            let l = self.ar.cmp(O::Ult, *p, *q);
            let d = self.ar.ite(l, neg, pos);
            acc = self.ar.ite(e, acc, d);
        }
        self.from_e(acc)
    }

    fn arith(&mut self, st: Stub, w: u32, a: &[V], ret: &Ty) -> R<V> {
        use Stub::*;
        let all_c = a.iter().all(|v| matches!(v, V::C(_)));
        let k = |i: usize| -> u128 { match &a[i] { V::C(x) => *x, _ => 0 } };
        let m = mask(w);
        if all_c {
            let x = k(0);
            let y = if a.len() > 1 { k(1) } else { 0 };
            let (sxx, syy) = (sx(x, w), sx(y, w));
            let clamp = |v: i128| -> u128 {
                let hi = (m >> 1) as i128;
                let lo = -hi - 1;
                (v.clamp(lo, hi) as u128) & m
            };
            return Ok(V::C(match st {
                Ctlz => if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 },
                Cttz => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                Ctpop => x.count_ones() as u128,
                Bswap => x.swap_bytes() >> (128 - w),
                BitRev => x.reverse_bits() >> (128 - w),
                UAddSat => (x + y).min(m),
                USubSat => x.saturating_sub(y),
                SAddSat => clamp(sxx + syy),
                SSubSat => clamp(sxx - syy),
                UMin => x.min(y), UMax => x.max(y),
                SMin => if sxx < syy { x } else { y },
                SMax => if sxx > syy { x } else { y },
                Abs => (sxx.wrapping_abs() as u128) & m,
                Fshl => { let s = (k(2) % w as u128) as u32; if s == 0 { x } else { ((x << s) | (y >> (w - s))) & m } }
                Fshr => { let s = (k(2) % w as u128) as u32; if s == 0 { y } else { ((x << (w - s)) | (y >> s)) & m } }
                Ucmp => { let rw = ret_w(ret); (if x < y { -1i128 } else { (x > y) as i128 } as u128) & mask(rw) }
                Scmp => { let rw = ret_w(ret); (if sxx < syy { -1i128 } else { (sxx > syy) as i128 } as u128) & mask(rw) }
                _ => unreachable!(),
            }));
        }
        let x = self.to_e(&a[0], w);
        let e = match st {
            Ctlz | Cttz => {
                // if-then-else over the bits, lowest priority first
                let mut acc = self.ar.k(w, w as u128);
                for i in 0..w {
                    // ctlz: the highest set bit decides; cttz: the lowest
                    let bit = if st == Ctlz { i } else { w - 1 - i };
                    let b = self.ar.extract(x, bit, 1);
                    let val = if st == Ctlz { (w - 1 - bit) as u128 } else { bit as u128 };
                    let kv = self.ar.k(w, val);
                    acc = self.ar.ite(b, kv, acc);
                }
                acc
            }
            Ctpop => {
                let mut acc = self.ar.k(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    acc = self.ar.bin(O::Add, acc, b);
                }
                acc
            }
            Bswap => {
                let n = w / 8;
                let mut acc = self.ar.extract(x, 0, 8);
                for i in 1..n { let b = self.ar.extract(x, i * 8, 8); acc = self.ar.concat(acc, b); }
                acc
            }
            BitRev => {
                let mut acc = self.ar.extract(x, 0, 1);
                for i in 1..w { let b = self.ar.extract(x, i, 1); acc = self.ar.concat(acc, b); }
                acc
            }
            Abs => {
                let z = self.ar.k(w, 0);
                let c = self.ar.cmp(O::Slt, x, z);
                let n = self.ar.bin(O::Sub, z, x);
                self.ar.ite(c, n, x)
            }
            _ => {
                let y = self.to_e(&a[1], w);
                match st {
                    UMin => { let c = self.ar.cmp(O::Ult, x, y); self.ar.ite(c, x, y) }
                    UMax => { let c = self.ar.cmp(O::Ult, x, y); self.ar.ite(c, y, x) }
                    SMin => { let c = self.ar.cmp(O::Slt, x, y); self.ar.ite(c, x, y) }
                    SMax => { let c = self.ar.cmp(O::Slt, x, y); self.ar.ite(c, y, x) }
                    USubSat => {
                        let c = self.ar.cmp(O::Ult, x, y);
                        let z = self.ar.k(w, 0);
                        let d = self.ar.bin(O::Sub, x, y);
                        self.ar.ite(c, z, d)
                    }
                    UAddSat => {
                        let s = self.ar.bin(O::Add, x, y);
                        let c = self.ar.cmp(O::Ult, s, x);
                        let f = self.ar.k(w, m);
                        self.ar.ite(c, f, s)
                    }
                    SAddSat | SSubSat => {
                        let s = self.ar.bin(if st == SAddSat { O::Add } else { O::Sub }, x, y);
                        let (a, b) = (self.ar.bin(O::Xor, x, s), self.ar.bin(O::Xor, if st == SAddSat { y } else { x }, if st == SAddSat { s } else { y }));
                        let c = self.ar.bin(O::And, a, b);
                        let c = self.ar.extract(c, w - 1, 1);
                        let neg = self.ar.extract(x, w - 1, 1);
                        let (lo, hi) = (self.ar.k(w, (m >> 1) + 1), self.ar.k(w, m >> 1));
                        let f = self.ar.ite(neg, lo, hi);
                        self.ar.ite(c, f, s)
                    }
                    Ucmp | Scmp => {
                        let op = if st == Ucmp { O::Ult } else { O::Slt };
                        let rw = ret_w(ret);
                        let lt = self.ar.cmp(op, x, y);
                        let gt = self.ar.cmp(op, y, x);
                        let (n, p, z) = (self.ar.k(rw, u128::MAX), self.ar.k(rw, 1), self.ar.k(rw, 0));
                        let t = self.ar.ite(gt, p, z);
                        self.ar.ite(lt, n, t)
                    }
                    Fshl | Fshr => {
                        let s = match &a[2] { V::C(s) => (*s % w as u128) as u32, V::S(s) => { let s = *s; (self.concretize(s)? % w as u128) as u32 } _ => return err("fsh") };
                        if st == Fshl {
                            if s == 0 { x } else {
                                let hi = self.ar.extract(x, 0, w - s);
                                let lo = self.ar.extract(y, w - s, s);
                                self.ar.concat(hi, lo)
                            }
                        } else if s == 0 { y } else {
                            let hi = self.ar.extract(x, 0, s);
                            let lo = self.ar.extract(y, s, w - s);
                            self.ar.concat(hi, lo)
                        }
                    }
                    _ => return err(format!("symbolic {st:?}")),
                }
            }
        };
        Ok(self.from_e(e))
    }
}

fn ret_w(t: &Ty) -> u32 { match t { Ty::Int(w) | Ty::Float(w) => *w, Ty::Vec(_, e) => e.bits() as u32, _ => 32 } }

/// readable tail of a mangled name: the identifiers in it
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if l >= 2 && l < 60 && j + l <= b.len() {
                let s = &n[j..j + l];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && s.bytes().any(|c| c.is_ascii_lowercase()) && s.as_bytes()[0].is_ascii_alphabetic() | (s.as_bytes()[0] == b'_') {
                    out.push(s.to_string());
                    i = j + l;
                    continue;
                }
            }
        }
        i += 1;
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
