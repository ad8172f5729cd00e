//! Parser for the textual LLVM IR that rustc emits: the subset that compiled Rust uses.
//! Anything not understood becomes `I::Unsupported`, which is an error only if executed.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    A(Arc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float(u32),
    Ptr,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Opaque,
}

fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) | Ty::Float(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (t.bits() * n / 8).max(1).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w as u64,
            Ty::Ptr => 64,
            _ => self.size() * 8,
        }
    }
    /// bytes a store of this type writes
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (t.bits() * n + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(_) | Ty::Float(_) => round_up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => round_up(self.store_size(), self.align()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed { o = round_up(o, t.align()); }
                    o += t.size();
                }
                if !*packed { o = round_up(o, self.align()); }
                o
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed { o = round_up(o, t.align()); }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    pub fn zero(&self) -> V {
        if self.is_agg() {
            let mut v = vec![];
            for i in 0..self.nfields() { v.push(self.field(i).1.zero()); }
            V::A(Arc::new(v))
        } else {
            V::C(0)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast { Trunc, ZExt, SExt, Same }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // global index
    Indirect(Op),
    Asm,
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub dst: Option<u32>,
    pub ret: Ty,
    pub normal: Option<u32>, // invoke: normal destination block
    pub line: u32,
}

#[derive(Debug)]
pub enum I {
    Bin(Bin, u32, Op, Op, u32),
    ICmp(Pred, u32, Op, Op, u32),
    Cast(Cast, u32, u32, Op, u32),
    BitCast(Ty, Ty, Op, u32),
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Alloca(u64, u64, Op, u32), // elem size, align, count
    Gep(Op, i64, Vec<(Op, u32, i64)>, u32),
    Select(Op, Op, Op, Ty, u32),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, Vec<(u128, u32)>, u32),
    Ret(Option<Op>),
    Unreachable,
    ExtractValue(Op, Vec<u32>, u32),
    InsertValue(Op, Op, Vec<u32>, u32),
    ExtractElement(Op, Op, u32),
    InsertElement(Op, Op, Op, u32),
    Shuffle(Op, Op, Vec<i32>, u32),
    Freeze(Op, u32),
    FBin(FBin, u32, Op, Op, u32),
    FCmp(u8, u32, Op, Op, u32), // bit 0: equal, 1: greater, 2: less, 3: unordered
    FCast(FCast, u32, u32, Op, u32),
    Rmw(String, Ty, Op, Op, u32),
    CmpXchg(Ty, Op, Op, Op, u32),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FBin { Add, Sub, Mul, Div, Rem, Neg }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FCast { SiToFp, UiToFp, FpToSi, FpToUi, Ext, Trunc }

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub gidx: u32,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub error: Option<String>,
    pub id: u32,
}

pub enum GlobalKind {
    Data { bytes: Vec<u8> },
    Func(u32),     // index in funcs
    Extern,        // declared function (or external data)
}
pub struct Global {
    pub name: String,
    pub kind: GlobalKind,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub by_name: HashMap<String, u32>,
}

pub fn gaddr(idx: u32) -> u128 {
    ((idx as u128) + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    L(String),   // %name
    G(String),   // @name
    W(&'a str),  // word
    N(&'a str),  // number
    Str(Vec<u8>),
    P(u8),
    Meta(&'a str),
}

fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'$' || c == b'.' || c == b'_' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            if s[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            out.push(u8::from_str_radix(h, 16).unwrap_or(0));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

/// Tokenise one logical line. Stops at a metadata attachment at bracket depth 0.
fn lex<'a>(s: &'a str) -> Vec<T<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let mut depth = 0i32;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' { i += 1; }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && ident_char(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                if depth == 0 { break; }
                let mut j = i + 1;
                while j < b.len() && (ident_char(b[j])) { j += 1; }
                out.push(T::Meta(&s[i..j]));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1; }
                out.push(T::Str(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                out.push(T::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && ident_char(b[j]) { j += 1; }
                i = j;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (ident_char(b[j]) || b[j] == b'+') { j += 1; }
                out.push(T::N(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && ident_char(b[j]) { j += 1; }
                out.push(T::W(&s[i..j]));
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::W("..."));
                i += 3;
            }
            _ => {
                match c {
                    b'(' | b'[' | b'{' | b'<' => depth += 1,
                    b')' | b']' | b'}' | b'>' => depth -= 1,
                    _ => {}
                }
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    out
}

struct P<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    cx: &'m Cx,
    locals: Option<&'m mut Locals>,
}

struct Cx {
    named: HashMap<String, Ty>,
    gl: HashMap<String, u32>,
}

#[derive(Default)]
struct Locals {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl Locals {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

type R<X> = Result<X, String>;

impl<'a, 'm> P<'a, 'm> {
    fn peek(&self) -> Option<&T<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> R<T<'a>> {
        let r = self.t.get(self.i).cloned().ok_or_else(|| "eol".to_string());
        self.i += 1;
        r
    }
    fn is_p(&self, c: u8) -> bool { self.peek() == Some(&T::P(c)) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(T::W(x)) if *x == w) }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) { self.i += 1; true } else { false }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) { self.i += 1; true } else { false }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) { Ok(()) } else { Err(format!("expected {:?} got {:?}", c as char, self.peek())) }
    }
    fn skip_paren(&mut self) -> R<()> {
        // at '('
        self.exp(b'(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::P(b'[')) | Some(T::P(b'{')) | Some(T::P(b'<')) => true,
            Some(T::L(n)) => self.cx.named.contains_key(n),
            Some(T::W(w)) => {
                matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "opaque")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::W("ptr") => {
                if self.eat_w("addrspace") { self.skip_paren()?; }
                Ok(Ty::Ptr)
            }
            T::W("void") => Ok(Ty::Void),
            T::W("float") => Ok(Ty::Float(32)),
            T::W("double") => Ok(Ty::Float(64)),
            T::W("half") => Ok(Ty::Float(16)),
            T::W("label") | T::W("metadata") | T::W("token") | T::W("opaque") => Ok(Ty::Opaque),
            T::W("x86_fp80") | T::W("fp128") => Ok(Ty::Float(128)),
            T::W(w) if w.starts_with('i') => Ok(Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?)),
            T::P(b'[') => {
                let n = self.num()? as u64;
                if !self.eat_w("x") { return Err("array type".into()); }
                let t = self.ty()?;
                self.exp(b']')?;
                Ok(Ty::Arr(n, Arc::new(t)))
            }
            T::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let f = self.tylist(b'}')?;
                    self.exp(b'>')?;
                    return Ok(Ty::Struct(Arc::new(f), true));
                }
                let n = self.num()? as u64;
                if !self.eat_w("x") { return Err("vector type".into()); }
                let t = self.ty()?;
                self.exp(b'>')?;
                Ok(Ty::Vec(n, Arc::new(t)))
            }
            T::P(b'{') => {
                let f = self.tylist(b'}')?;
                Ok(Ty::Struct(Arc::new(f), false))
            }
            T::L(n) => self.cx.named.get(&n).cloned().ok_or(format!("named type {n}")),
            x => Err(format!("type expected, got {x:?}")),
        }
    }
    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut f = vec![];
        while !self.eat_p(end) {
            f.push(self.ty()?);
            self.eat_p(b',');
        }
        Ok(f)
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::N(s) => s.parse().map_err(|_| format!("number {s}")),
            x => Err(format!("number expected, got {x:?}")),
        }
    }
    fn skip_attrs_to_type(&mut self) -> R<()> {
        while !self.at_type() {
            match self.next()? {
                T::W("align") | T::W("cc") => {
                    if self.is_p(b'(') { self.skip_paren()? } else { self.i += 1 }
                }
                T::W(_) => if self.is_p(b'(') { self.skip_paren()? },
                T::Str(_) => {
                    if self.eat_p(b'=') { self.next()?; }
                }
                x => return Err(format!("attr? {x:?}")),
            }
        }
        Ok(())
    }
    fn skip_attrs_to_value(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::W(w)) if !matches!(*w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "asm" | "bitcast" | "blockaddress" | "sub" | "add" | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "trunc") => {
                    let al = *w == "align";
                    self.i += 1;
                    if self.is_p(b'(') { self.skip_paren()? } else if al { self.i += 1 }
                }
                _ => return Ok(()),
            }
        }
    }
    fn gref(&self, n: &str) -> R<u32> {
        self.cx.gl.get(n).copied().ok_or(format!("global {n}"))
    }
    fn mask(w: u32, v: i128) -> u128 {
        let v = v as u128;
        if w >= 128 { v } else { v & ((1u128 << w) - 1) }
    }
    /// value of the given type
    fn val(&mut self, ty: &Ty) -> R<Op> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            let l = self.locals.as_mut().ok_or("local in const")?;
            return Ok(Op::R(l.reg(&n)));
        }
        Ok(Op::K(self.konst(ty)?))
    }
    fn tval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs_to_value()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn tkonst(&mut self) -> R<(Ty, V)> {
        let t = self.ty()?;
        let v = self.konst(&t)?;
        Ok((t, v))
    }
    fn konst_scalar(v: V) -> R<u128> {
        match v { V::C(x) => Ok(x), _ => Err("scalar const expected".into()) }
    }
    fn konst(&mut self, ty: &Ty) -> R<V> {
        match self.next()? {
            T::N(s) => match ty {
                Ty::Int(w) => {
                    let v: i128 = if let Ok(x) = s.parse::<i128>() { x } else { s.parse::<u128>().map_err(|_| format!("int {s}"))? as i128 };
                    Ok(V::C(Self::mask(*w, v)))
                }
                Ty::Float(32) => {
                    let bits = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else { s.parse::<f64>().map_err(|e| e.to_string())? };
                    Ok(V::C((bits as f32).to_bits() as u128))
                }
                Ty::Float(64) => {
                    let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    Ok(V::C(bits as u128))
                }
                t => Err(format!("number for {t:?}")),
            },
            t @ (T::P(b'+') | T::P(b'-')) => {
                let neg = t == T::P(b'-');
                match (self.next()?, ty) {
                    (T::W("inf"), Ty::Float(32)) => Ok(V::C(if neg { f32::NEG_INFINITY } else { f32::INFINITY }.to_bits() as u128)),
                    (T::W("inf"), Ty::Float(64)) => Ok(V::C(if neg { f64::NEG_INFINITY } else { f64::INFINITY }.to_bits() as u128)),
                    (T::W("qnan"), Ty::Float(32)) => Ok(V::C(f32::NAN.to_bits() as u128)),
                    (T::W("qnan"), Ty::Float(64)) => Ok(V::C(f64::NAN.to_bits() as u128)),
                    (x, t) => Err(format!("sign before {x:?} of {t:?}")),
                }
            }
            T::W(x) if x.starts_with("f0x") => match ty {
                Ty::Float(32 | 64) => Ok(V::C(u64::from_str_radix(&x[3..], 16).map_err(|e| e.to_string())? as u128)),
                t => Err(format!("{x} of {t:?}")),
            },
            T::W("true") => Ok(V::C(1)),
            T::W("false") => Ok(V::C(0)),
            T::W("null") | T::W("none") => Ok(V::C(0)),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => Ok(ty.zero()),
            T::G(n) => Ok(V::C(gaddr(self.gref(&n)?))),
            T::Str(s) => Ok(V::A(Arc::new(s.iter().map(|b| V::C(*b as u128)).collect()))),
            T::P(b'[') => {
                let mut v = vec![];
                while !self.eat_p(b']') {
                    v.push(self.tkonst()?.1);
                    self.eat_p(b',');
                }
                Ok(V::A(Arc::new(v)))
            }
            T::P(b'{') => {
                let mut v = vec![];
                while !self.eat_p(b'}') {
                    v.push(self.tkonst()?.1);
                    self.eat_p(b',');
                }
                Ok(V::A(Arc::new(v)))
            }
            T::P(b'<') => {
                let st = self.eat_p(b'{');
                let end = if st { b'}' } else { b'>' };
                let mut v = vec![];
                while !self.eat_p(end) {
                    v.push(self.tkonst()?.1);
                    self.eat_p(b',');
                }
                if st { self.exp(b'>')?; }
                Ok(V::A(Arc::new(v)))
            }
            T::W("splat") => {
                self.exp(b'(')?;
                let (_, k) = self.tkonst()?;
                self.exp(b')')?;
                match ty {
                    Ty::Vec(n, _) => Ok(V::A(Arc::new(vec![k; *n as usize]))),
                    _ => Err("splat".into()),
                }
            }
            T::W("getelementptr") => {
                while let Some(T::W(w)) = self.peek() {
                    let _ = w;
                    self.i += 1;
                    if self.is_p(b'(') && self.is_w("inrange") { self.skip_paren()?; }
                }
                // now at '(' ; an "inrange(..)" attribute would have been skipped as word + paren
                self.exp(b'(')?;
                let mut t = self.ty()?;
                self.exp(b',')?;
                let (_, b) = self.tkonst()?;
                let mut addr = Self::konst_scalar(b)? as i128;
                let mut first = true;
                while self.eat_p(b',') {
                    let (it, k) = self.tkonst()?;
                    let w = match it { Ty::Int(w) => w, _ => return Err("gep idx".into()) };
                    let k = sext(Self::konst_scalar(k)?, w);
                    if first {
                        addr += k * t.size() as i128;
                        first = false;
                    } else {
                        let (o, ft) = t.field_or_elem(k)?;
                        addr += o;
                        t = ft;
                    }
                }
                self.exp(b')')?;
                Ok(V::C(addr as u128 & 0xffff_ffff_ffff_ffff))
            }
            T::W("inttoptr") | T::W("ptrtoint") | T::W("bitcast") | T::W("addrspacecast") | T::W("trunc") => {
                self.exp(b'(')?;
                let (_, v) = self.tkonst()?;
                if !self.eat_w("to") { return Err("to".into()); }
                let t2 = self.ty()?;
                self.exp(b')')?;
                match (&t2, v) {
                    (Ty::Int(w), V::C(x)) => Ok(V::C(Self::mask(*w, x as i128))),
                    (_, v) => Ok(v),
                }
            }
            T::W(op @ ("sub" | "add")) => {
                while let Some(T::W(_)) = self.peek() { self.i += 1; }
                self.exp(b'(')?;
                let (t, a) = self.tkonst()?;
                self.exp(b',')?;
                let (_, b) = self.tkonst()?;
                self.exp(b')')?;
                let (a, b) = (Self::konst_scalar(a)?, Self::konst_scalar(b)?);
                let r = if op == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) };
                Ok(V::C(Self::mask(t.bits() as u32, r as i128)))
            }
            x => Err(format!("const? {x:?}")),
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_w("label") { return Err("label".into()); }
        match self.next()? {
            T::L(n) => Ok(self.locals.as_mut().unwrap().block(&n)),
            x => Err(format!("label {x:?}")),
        }
    }
}

impl Ty {
    fn field_or_elem(&self, k: i128) -> R<(i128, Ty)> {
        match self {
            Ty::Struct(..) => {
                let (o, t) = self.field(k as usize);
                Ok((o as i128, t))
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => Ok((k * t.size() as i128, (**t).clone())),
            _ => Err("gep into scalar".into()),
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn emit(ty: &Ty, v: &V, out: &mut Vec<u8>, cx: &Cx) {
    let _ = cx;
    match (ty, v) {
        (Ty::Struct(f, packed), V::A(vs)) => {
            let base = out.len() as u64;
            for (k, t) in f.iter().enumerate() {
                if !*packed {
                    let pos = out.len() as u64 - base;
                    let al = (pos + t.align() - 1) / t.align() * t.align();
                    out.resize((base + al) as usize, 0);
                }
                emit(t, &vs[k], out, cx);
            }
            out.resize((base + ty.size()) as usize, 0);
        }
        (Ty::Arr(_, t) | Ty::Vec(_, t), V::A(vs)) => {
            for x in vs.iter() { emit(t, x, out, cx); }
        }
        (_, V::C(x)) => {
            let n = ty.size() as usize;
            let b = x.to_le_bytes();
            for k in 0..n { out.push(if k < 16 { b[k] } else { 0 }); }
        }
        _ => panic!("emit"),
    }
}

fn parse_ins(p: &mut P, line: &str, lineno: u32) -> R<I> {
    let mut dst: Option<u32> = None;
    if let (Some(T::L(n)), Some(T::P(b'='))) = (p.t.get(0).cloned(), p.t.get(1)) {
        dst = Some(p.locals.as_mut().unwrap().reg(&n));
        p.i = 2;
    }
    let d = dst.unwrap_or(u32::MAX);
    let mut w = match p.next()? {
        T::W(w) => w.to_string(),
        x => return Err(format!("opcode {x:?}")),
    };
    if matches!(w.as_str(), "tail" | "musttail" | "notail") {
        w = match p.next()? { T::W(w) => w.to_string(), _ => return Err("call".into()) };
    }
    let bin = |s: &str| -> Option<Bin> {
        Some(match s {
            "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
            "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
            "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, _ => return None,
        })
    };
    if let Some(b) = bin(&w) {
        p.skip_attrs_to_type()?;
        let t = p.ty()?;
        let a = p.val(&t)?;
        p.exp(b',')?;
        let c = p.val(&t)?;
        let width = match &t { Ty::Int(w) => *w, Ty::Vec(_, e) => e.bits() as u32, _ => return Err("bin type".into()) };
        return Ok(I::Bin(b, width, a, c, d));
    }
    let fast = |p: &mut P| while let Some(T::W("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "nneg")) = p.peek() { p.i += 1; };
    let fbits = |t: &Ty| match t { Ty::Float(w @ (32 | 64)) => Ok(*w), _ => Err("floating-point type".to_string()) };
    match w.as_str() {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            fast(p);
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp(b',')?;
            let c = p.val(&t)?;
            let k = match w.as_str() { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem };
            Ok(I::FBin(k, fbits(&t)?, a, c, d))
        }
        "fneg" => {
            fast(p);
            let (t, a) = p.tval()?;
            Ok(I::FBin(FBin::Neg, fbits(&t)?, a.clone(), a, d))
        }
        "fcmp" => {
            fast(p);
            let k = match p.next()? {
                T::W("false") => 0, T::W("oeq") => 1, T::W("ogt") => 2, T::W("oge") => 3, T::W("olt") => 4, T::W("ole") => 5, T::W("one") => 6, T::W("ord") => 7,
                T::W("uno") => 8, T::W("ueq") => 9, T::W("ugt") => 10, T::W("uge") => 11, T::W("ult") => 12, T::W("ule") => 13, T::W("une") => 14, T::W("true") => 15,
                x => return Err(format!("pred {x:?}")),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp(b',')?;
            let c = p.val(&t)?;
            Ok(I::FCmp(k, fbits(&t)?, a, c, d))
        }
        "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
            fast(p);
            let (t, a) = p.tval()?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            let wd = |t: &Ty| match t { Ty::Float(w @ (32 | 64)) | Ty::Int(w) => Ok(*w), _ => Err("floating-point cast".to_string()) };
            let k = match w.as_str() { "sitofp" => FCast::SiToFp, "uitofp" => FCast::UiToFp, "fptosi" => FCast::FpToSi, "fptoui" => FCast::FpToUi, "fpext" => FCast::Ext, _ => FCast::Trunc };
            Ok(I::FCast(k, wd(&t)?, wd(&t2)?, a, d))
        }
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next()? {
                T::W("eq") => Pred::Eq, T::W("ne") => Pred::Ne, T::W("ult") => Pred::Ult, T::W("ule") => Pred::Ule,
                T::W("ugt") => Pred::Ugt, T::W("uge") => Pred::Uge, T::W("slt") => Pred::Slt, T::W("sle") => Pred::Sle,
                T::W("sgt") => Pred::Sgt, T::W("sge") => Pred::Sge, x => return Err(format!("pred {x:?}")),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp(b',')?;
            let c = p.val(&t)?;
            let width = match &t { Ty::Vec(_, e) => e.bits() as u32, t => t.bits() as u32 };
            Ok(I::ICmp(pr, width, a, c, d))
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
            p.skip_attrs_to_type()?;
            let (t, a) = p.tval()?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            let wd = |t: &Ty| match t { Ty::Vec(_, e) => e.bits() as u32, t => t.bits() as u32 };
            let (f, to) = (wd(&t), wd(&t2));
            let k = match w.as_str() {
                "zext" => Cast::ZExt, "sext" => Cast::SExt, "trunc" => Cast::Trunc,
                _ => if f == to { Cast::Same } else if f < to { Cast::ZExt } else { Cast::Trunc },
            };
            Ok(I::Cast(k, f, to, a, d))
        }
        "bitcast" => {
            let (t, a) = p.tval()?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            Ok(I::BitCast(t, t2, a, d))
        }
        "load" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            p.exp(b',')?;
            let (_, a) = p.tval()?;
            Ok(I::Load(t, a, d))
        }
        "store" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let (t, v) = p.tval()?;
            p.exp(b',')?;
            let (_, a) = p.tval()?;
            Ok(I::Store(t, v, a))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut count = Op::K(V::C(1));
            let mut align = t.align();
            while p.eat_p(b',') {
                if p.eat_w("align") { align = p.num()? as u64; } else { count = p.tval()?.1; }
            }
            Ok(I::Alloca(t.size(), align, count, d))
        }
        "getelementptr" => {
            p.skip_attrs_to_type()?;
            let mut t = p.ty()?;
            p.exp(b',')?;
            let (bt, b) = p.tval()?;
            if bt != Ty::Ptr { return Err("vector gep".into()); }
            let mut off = 0i128;
            let mut idx = vec![];
            let mut first = true;
            while p.eat_p(b',') {
                let (it, k) = p.tval()?;
                let wd = match it { Ty::Int(w) => w, _ => return Err("gep idx".into()) };
                let (scale, nt) = if first { (t.size() as i128, t.clone()) } else {
                    match &t {
                        Ty::Struct(..) => (0, t.clone()),
                        Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i128, (**e).clone()),
                        _ => return Err("gep scalar".into()),
                    }
                };
                match (&k, first, &t) {
                    (Op::K(V::C(c)), false, Ty::Struct(..)) => {
                        let (o, ft) = t.field(*c as usize);
                        off += o as i128;
                        t = ft;
                        continue;
                    }
                    (Op::K(V::C(c)), _, _) => off += sext(*c, wd) * scale,
                    (Op::R(_), false, Ty::Struct(..)) => return Err("gep struct idx".into()),
                    _ => idx.push((k, wd, scale as i64)),
                }
                t = nt;
                first = false;
            }
            Ok(I::Gep(b, off as i64, idx, d))
        }
        "select" => {
            p.skip_attrs_to_type()?;
            let (_, c) = p.tval()?;
            p.exp(b',')?;
            let (t, a) = p.tval()?;
            p.exp(b',')?;
            let (_, b) = p.tval()?;
            Ok(I::Select(c, a, b, t, d))
        }
        "br" => {
            if p.is_w("label") { return Ok(I::Br(p.label()?)); }
            let (_, c) = p.tval()?;
            p.exp(b',')?;
            let a = p.label()?;
            p.exp(b',')?;
            let b = p.label()?;
            Ok(I::CondBr(c, a, b))
        }
        "switch" => {
            let (t, c) = p.tval()?;
            p.exp(b',')?;
            let def = p.label()?;
            p.exp(b'[')?;
            let mut cases = vec![];
            while !p.eat_p(b']') {
                let (_, k) = p.tkonst()?;
                p.exp(b',')?;
                let l = p.label()?;
                cases.push((P::konst_scalar(k)?, l));
            }
            Ok(I::Switch(t.bits() as u32, c, cases, def))
        }
        "ret" => {
            if p.eat_w("void") { return Ok(I::Ret(None)); }
            Ok(I::Ret(Some(p.tval()?.1)))
        }
        "unreachable" => Ok(I::Unreachable),
        "call" | "invoke" => {
            p.skip_attrs_to_type()?;
            let ret = p.ty()?;
            if p.is_p(b'(') { p.skip_paren()?; }
            let callee = match p.next()? {
                T::G(n) => Callee::Direct(p.gref(&n)?),
                T::L(n) => Callee::Indirect(Op::R(p.locals.as_mut().unwrap().reg(&n))),
                T::W("asm") => {
                    while !p.is_p(b'(') { p.i += 1; }
                    Callee::Asm
                }
                _ => {
                    p.i -= 1;
                    Callee::Indirect(Op::K(p.konst(&Ty::Ptr)?))
                }
            };
            p.exp(b'(')?;
            let mut args = vec![];
            while !p.eat_p(b')') {
                if p.is_w("metadata") {
                    // metadata argument: skip to , or ) at this depth
                    let mut dd = 0;
                    loop {
                        match p.peek() {
                            Some(T::P(b'(')) => dd += 1,
                            Some(T::P(b')')) => { if dd == 0 { break; } dd -= 1; }
                            Some(T::P(b',')) if dd == 0 => break,
                            None => return Err("metadata arg".into()),
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push((Ty::Opaque, Op::K(V::C(0))));
                } else {
                    args.push(p.tval()?);
                }
                p.eat_p(b',');
            }
            let mut normal = None;
            if w == "invoke" {
                while !p.is_w("to") { p.i += 1; if p.i > p.t.len() { return Err("invoke".into()); } }
                p.i += 1;
                normal = Some(p.label()?);
            }
            if ret == Ty::Void { dst = None; }
            Ok(I::Call(Box::new(CallI { callee, args, dst, ret, normal, line: lineno })))
        }
        "extractvalue" => {
            let (_, a) = p.tval()?;
            let mut ix = vec![];
            while p.eat_p(b',') { ix.push(p.num()? as u32); }
            Ok(I::ExtractValue(a, ix, d))
        }
        "insertvalue" => {
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (_, v) = p.tval()?;
            let mut ix = vec![];
            while p.eat_p(b',') { ix.push(p.num()? as u32); }
            Ok(I::InsertValue(a, v, ix, d))
        }
        "extractelement" => {
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (_, i) = p.tval()?;
            Ok(I::ExtractElement(a, i, d))
        }
        "insertelement" => {
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (_, v) = p.tval()?;
            p.exp(b',')?;
            let (_, i) = p.tval()?;
            Ok(I::InsertElement(a, v, i, d))
        }
        "shufflevector" => {
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (_, b) = p.tval()?;
            p.exp(b',')?;
            let (_, m) = p.tkonst()?;
            let m = match m { V::A(v) => v.iter().map(|x| match x { V::C(c) => *c as i32, _ => -1 }).collect(), _ => return Err("mask".into()) };
            Ok(I::Shuffle(a, b, m, d))
        }
        "freeze" => {
            let (_, a) = p.tval()?;
            Ok(I::Freeze(a, d))
        }
        "fence" => Ok(I::Nop),
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next()? { T::W(w) => w.to_string(), _ => return Err("rmw".into()) };
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (t, v) = p.tval()?;
            Ok(I::Rmw(op, t, a, v, d))
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.eat_w("volatile");
            let (_, a) = p.tval()?;
            p.exp(b',')?;
            let (t, c) = p.tval()?;
            p.exp(b',')?;
            let (_, n) = p.tval()?;
            Ok(I::CmpXchg(t, a, c, n, d))
        }
        _ => Ok(I::Unsupported(line.trim().chars().take(200).collect())),
    }
}

fn parse_func(lines: &[&str], first_line: u32, cx: &Cx, id: u32) -> Func {
    // header
    let mut loc = Locals::default();
    let mut name = String::new();
    let mut params = vec![];
    let mut error = None;
    {
        let toks = lex(lines[0].trim_start_matches("define"));
        let mut p = P { t: toks, i: 0, cx, locals: Some(&mut loc) };
        let r: R<()> = (|| {
            p.skip_attrs_to_type()?;
            p.ty()?;
            match p.next()? { T::G(n) => name = n, x => return Err(format!("fn name {x:?}")) }
            p.exp(b'(')?;
            let mut k = 0;
            while !p.eat_p(b')') {
                if p.eat_w("...") { continue; }
                let t = p.ty()?;
                // skip attributes up to %name , or )
                let mut nm = None;
                loop {
                    match p.peek() {
                        Some(T::L(n)) => { nm = Some(n.clone()); p.i += 1; break; }
                        Some(T::P(b',')) | Some(T::P(b')')) => break,
                        Some(T::W(_)) => { p.i += 1; if p.is_p(b'(') { p.skip_paren()?; } }
                        Some(_) => { p.i += 1; }
                        None => return Err("params".into()),
                    }
                }
                let nm = nm.unwrap_or_else(|| k.to_string());
                k += 1;
                let r = p.locals.as_mut().unwrap().reg(&nm);
                params.push((t, r));
                p.eat_p(b',');
            }
            Ok(())
        })();
        if let Err(e) = r { error = Some(format!("header: {e}")); }
    }
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<u32> = None;
    let mut unnamed_entry = true;
    let unnamed_params = loc.regs.keys().filter(|n| n.bytes().all(|c| c.is_ascii_digit())).count();
    let mut i = 1;
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() || l.starts_with(';') || l.starts_with('}') { i += 1; continue; }
        if !l.starts_with(' ') {
            // label
            let nm = match l.find(':') {
                Some(_) => {
                    if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() }
                }
                None => { i += 1; continue; }
            };
            let b = loc.block(&nm);
            cur = Some(b);
            unnamed_entry = false;
            while blocks.len() <= b as usize { blocks.push(None); }
            blocks[b as usize] = Some(Block::default());
            i += 1;
            continue;
        }
        if unnamed_entry {
            // an unnamed entry block takes the next number after the parameters
            let nm = unnamed_params.to_string();
            let b = loc.block(&nm);
            cur = Some(b);
            unnamed_entry = false;
            while blocks.len() <= b as usize { blocks.push(None); }
            blocks[b as usize] = Some(Block::default());
        }
        // logical line
        let mut text = l.to_string();
        let lineno = first_line + i as u32;
        let tr = l.trim_start();
        if tr.starts_with("switch") {
            while !lines[i].trim_start().starts_with(']') && !lines[i].trim_end().ends_with(']') && !lines[i].contains("], !") {
                i += 1;
                text.push('\n');
                text.push_str(lines[i]);
            }
        }
        while i + 1 < lines.len() {
            let n = lines[i + 1].trim_start();
            if n.starts_with("to label") || n == "cleanup" || n.starts_with("cleanup") || n.starts_with("catch ptr") || n.starts_with("filter ") {
                i += 1;
                text.push('\n');
                text.push_str(lines[i]);
            } else { break; }
        }
        i += 1;
        if tr.starts_with("#dbg") { continue; }
        // metadata attachments carry no semantics here
        if let Some(k) = text.find(", !") { text.truncate(k); }
        let toks = lex(&text);
        let is_phi = matches!(toks.get(2), Some(T::W("phi")));
        let mut p = P { t: toks, i: 0, cx, locals: Some(&mut loc) };
        let b = cur.unwrap() as usize;
        if is_phi {
            let r: R<(u32, Vec<(u32, Op)>)> = (|| {
                let dst = match p.next()? { T::L(n) => p.locals.as_mut().unwrap().reg(&n), _ => return Err("phi".into()) };
                p.i = 3;
                p.skip_attrs_to_type()?;
                let t = p.ty()?;
                let mut inc = vec![];
                while p.eat_p(b'[') {
                    let v = p.val(&t)?;
                    p.exp(b',')?;
                    let bl = match p.next()? { T::L(n) => p.locals.as_mut().unwrap().block(&n), _ => return Err("phi".into()) };
                    p.exp(b']')?;
                    p.eat_p(b',');
                    inc.push((bl, v));
                }
                Ok((dst, inc))
            })();
            match r {
                Ok(x) => blocks[b].as_mut().unwrap().phis.push(x),
                Err(e) => error = Some(format!("line {lineno}: {e}: {}", text.trim())),
            }
        } else {
            let ins = parse_ins(&mut p, &text, lineno).unwrap_or_else(|e| I::Unsupported(format!("parse error ({e}) line {lineno}: {}", text.trim())));
            blocks[b].as_mut().unwrap().ins.push(ins);
        }
    }
    let nblocks = loc.blocks.len();
    while blocks.len() < nblocks { blocks.push(None); }
    Func {
        name,
        gidx: 0,
        params,
        nregs: loc.regs.len() as u32,
        blocks: blocks.into_iter().map(|b| b.unwrap_or_default()).collect(),
        error,
        id,
    }
}

pub fn parse_module(text: &str) -> Result<Module, String> {
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: named types, globals, functions
    let mut named_src: Vec<(String, &str)> = vec![];
    let mut gsrc: Vec<(String, &str)> = vec![];
    let mut fsrc: Vec<(usize, usize)> = vec![];
    let mut decls: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') {
            let t = lex(l);
            if let (Some(T::L(n)), Some(T::P(b'=')), Some(T::W("type"))) = (t.get(0), t.get(1), t.get(2)) {
                named_src.push((n.clone(), &l[l.find(" type ").unwrap() + 6..]));
            }
        } else if l.starts_with('@') {
            let t = lex(l);
            if let Some(T::G(n)) = t.get(0) { gsrc.push((n.clone(), l)); }
        } else if l.starts_with("define") {
            let s = i;
            while lines[i] != "}" { i += 1; }
            fsrc.push((s, i));
        } else if l.starts_with("declare") {
            let t = lex(l);
            for x in t { if let T::G(n) = x { decls.push(n); break; } }
        }
        i += 1;
    }
    let mut cx = Cx { named: HashMap::new(), gl: HashMap::new() };
    // named types may refer to each other: iterate
    for _ in 0..8 {
        for (n, s) in &named_src {
            if cx.named.contains_key(n) { continue; }
            let toks = lex(s);
            let mut p = P { t: toks, i: 0, cx: &cx, locals: None };
            if let Ok(t) = p.ty() {
                cx.named.insert(n.clone(), t);
            }
        }
    }
    let mut globals: Vec<Global> = vec![];
    let mut by_name = HashMap::new();
    let mut aliases: Vec<(String, String)> = vec![];
    let mut data_src: Vec<(u32, &str)> = vec![];
    let mut add = |n: &str, kind: GlobalKind, globals: &mut Vec<Global>| -> u32 {
        let k = globals.len() as u32;
        globals.push(Global { name: n.to_string(), kind, align: 16 });
        by_name.insert(n.to_string(), k);
        k
    };
    for (n, l) in &gsrc {
        let t = lex(l);
        if t.iter().any(|x| *x == T::W("alias")) {
            if let Some(T::G(target)) = t.iter().rev().find(|x| matches!(x, T::G(_))) {
                aliases.push((n.clone(), target.clone()));
            }
            continue;
        }
        let k = add(n, GlobalKind::Data { bytes: vec![] }, &mut globals);
        data_src.push((k, l));
    }
    let mut fidx = vec![];
    for (k, (s, _)) in fsrc.iter().enumerate() {
        let t = lex(lines[*s]);
        let n = t.iter().find_map(|x| if let T::G(n) = x { Some(n.clone()) } else { None }).ok_or("fn name")?;
        fidx.push(add(&n, GlobalKind::Func(k as u32), &mut globals));
    }
    for n in &decls { add(n, GlobalKind::Extern, &mut globals); }
    for (n, t) in &aliases {
        if let Some(k) = by_name.get(t).copied() { by_name.insert(n.clone(), k); }
    }
    cx.gl = by_name.clone();
    // pass 2: data
    for (k, l) in data_src {
        let toks = lex(l);
        let mut p = P { t: toks, i: 2, cx: &cx, locals: None };
        // skip to "global" or "constant"
        let mut ext = false;
        let mut ok = false;
        while let Ok(t) = p.next() {
            match t {
                T::W("external") | T::W("extern_weak") => ext = true,
                T::W("global") | T::W("constant") => { ok = true; break; }
                _ => {}
            }
        }
        if !ok { continue; }
        let ty = match p.ty() { Ok(t) => t, Err(e) => return Err(format!("global type: {e}: {}", &l[..l.len().min(200)])) };
        if ext {
            globals[k as usize].kind = GlobalKind::Data { bytes: vec![0; ty.size() as usize] };
            continue;
        }
        match p.konst(&ty) {
            Ok(v) => {
                let mut bytes = Vec::with_capacity(ty.size() as usize);
                emit(&ty, &v, &mut bytes, &cx);
                globals[k as usize].kind = GlobalKind::Data { bytes };
            }
            Err(e) => return Err(format!("global init: {e}: {}", &l[..l.len().min(300)])),
        }
        while let Some(t) = p.peek() {
            if *t == T::W("align") { p.i += 1; globals[k as usize].align = p.num()? as u64; break; }
            p.i += 1;
        }
    }
    let mut funcs = vec![];
    for (k, (s, e)) in fsrc.iter().enumerate() {
        let mut f = parse_func(&lines[*s..*e], *s as u32 + 1, &cx, k as u32);
        f.gidx = fidx[k];
        funcs.push(f);
    }
    Ok(Module { funcs, globals, by_name })
}
