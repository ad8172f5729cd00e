//! Hand-written FFI to libz3 and translation of the expression DAG.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Cfg = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_get_error_code(c: Ctx) -> c_uint;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_unsat_core(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_ast_vector_inc_ref(c: Ctx, v: *mut c_void);
    fn Z3_ast_vector_dec_ref(c: Ctx, v: *mut c_void);
    fn Z3_ast_vector_size(c: Ctx, v: *mut c_void) -> c_uint;
    fn Z3_ast_vector_get(c: Ctx, v: *mut c_void, i: c_uint) -> Ast;
    fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
}

extern "C" fn on_error(_c: Ctx, _e: c_uint) {}

pub struct Z3 {
    cx: Ctx,
    solver: Solver,
    memo: HashMap<E, Ast>,
    vars: HashMap<u32, Ast>,
    timeout_ms: u32,
    /// activation literal of every constraint ever asserted
    act: HashMap<E, Ast>,
    act_back: HashMap<usize, E>,
    mode: u8,
}

pub enum Sat {
    /// a subset of the constraints that is already contradictory
    Unsat(Vec<E>),
    Sat(Vec<(u32, u8)>),
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let cx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(cx, Some(on_error));
            let mode = std::env::var("SEMIR_SOLVER").ok().and_then(|x| x.parse().ok()).unwrap_or(1u8);
            let solver = Self::mk(cx, mode);
            let z = Z3 { cx, solver, memo: HashMap::new(), vars: HashMap::new(), timeout_ms, act: HashMap::new(), act_back: HashMap::new(), mode };
            z.params(solver);
            z
        }
    }
    fn mk(cx: Ctx, mode: u8) -> Solver {
        unsafe {
            let l = CString::new("QF_BV").unwrap();
            let s = if mode == 1 { Z3_mk_simple_solver(cx) } else { Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, l.as_ptr())) };
            Z3_solver_inc_ref(cx, s);
            s
        }
    }
    fn params(&self, s: Solver) {
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.cx, s, p);
        }
    }
    fn tr(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(a) = self.memo.get(&e) { return *a; }
        let n = ar.n[e as usize];
        let c = self.cx;
        unsafe {
            let r = match n.op {
                O::Const => {
                    if n.w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                    else {
                        let s = Z3_mk_bv_sort(c, n.w);
                        if n.w <= 64 { Z3_mk_unsigned_int64(c, n.k as u64, s) }
                        else { let t = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                    }
                }
                O::Var => {
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 8));
                    self.vars.insert(n.k as u32, v);
                    v
                }
                O::Not => { let a = self.tr(ar, n.a); Z3_mk_not(c, a) }
                O::Ite => {
                    let (a, b, d) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                O::Sel => {
                    // a tree of choices by the bits of the index, lowest first
                    let i = self.trbv(ar, n.a);
                    let bits = ar.w(n.a);
                    let t = ar.sel_table(n.k);
                    let s = Z3_mk_bv_sort(c, n.w);
                    let mut row: Vec<Ast> = (0..1usize << bits).map(|j| Z3_mk_unsigned_int64(c, t.get(j).copied().unwrap_or(0) as u64, s)).collect();
                    for b in 0..bits {
                        let x = Z3_mk_eq(c, Z3_mk_extract(c, b, b, i), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
                        row = row.chunks(2).map(|p| if p[0] == p[1] { p[0] } else { Z3_mk_ite(c, x, p[1], p[0]) }).collect();
                    }
                    row[0]
                }
                O::Extract => { let a = self.trbv(ar, n.a);
                    let x = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a);
                    if n.w == 1 { Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { x }
                }
                O::ZExt => { let a = self.trbv(ar, n.a); Z3_mk_zero_ext(c, n.w - ar.w(n.a), a) }
                O::SExt => { let a = self.trbv(ar, n.a); Z3_mk_sign_ext(c, n.w - ar.w(n.a), a) }
                O::Concat => { let (a, b) = (self.trbv(ar, n.a), self.trbv(ar, n.b)); Z3_mk_concat(c, a, b) }
                op => {
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    let one = n.w == 1 && ar.w(n.a) == 1;
                    match op {
                        O::Eq => Z3_mk_eq(c, a, b),
                        O::And if one => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        O::Or if one => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        O::Xor if one => Z3_mk_xor(c, a, b),
                        O::And => Z3_mk_bvand(c, a, b),
                        O::Or => Z3_mk_bvor(c, a, b),
                        O::Xor => Z3_mk_bvxor(c, a, b),
                        O::Add => Z3_mk_bvadd(c, a, b),
                        O::Sub => Z3_mk_bvsub(c, a, b),
                        O::Mul => Z3_mk_bvmul(c, a, b),
                        O::UDiv => Z3_mk_bvudiv(c, a, b),
                        O::SDiv => Z3_mk_bvsdiv(c, a, b),
                        O::URem => Z3_mk_bvurem(c, a, b),
                        O::SRem => Z3_mk_bvsrem(c, a, b),
                        O::Shl => Z3_mk_bvshl(c, a, b),
                        O::LShr => Z3_mk_bvlshr(c, a, b),
                        O::AShr => Z3_mk_bvashr(c, a, b),
                        O::Ult => Z3_mk_bvult(c, a, b),
                        O::Slt => Z3_mk_bvslt(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            if r.is_null() || Z3_get_error_code(c) != 0 { panic!("z3 error translating {:?}", n); }
            self.memo.insert(e, r);
            r
        }
    }
    /// as a bit-vector (width-1 expressions are Bools otherwise)
    fn trbv(&mut self, ar: &Arena, e: E) -> Ast {
        let a = self.tr(ar, e);
        if ar.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.cx, 1);
                Z3_mk_ite(self.cx, a, Z3_mk_unsigned_int64(self.cx, 1, s), Z3_mk_unsigned_int64(self.cx, 0, s))
            }
        } else { a }
    }
    fn activate(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(a) = self.act.get(&e) { return *a; }
        let t = self.tr(ar, e);
        unsafe {
            let c = self.cx;
            let p = Z3_mk_const(c, Z3_mk_int_symbol(c, (1 << 28) + self.act.len() as c_int), Z3_mk_bool_sort(c));
            Z3_solver_assert(c, self.solver, Z3_mk_implies(c, p, t));
            self.act.insert(e, p);
            self.act_back.insert(p as usize, e);
            p
        }
    }
    /// satisfiability of the conjunction; the model lists the input bytes that occur
    pub fn check(&mut self, ar: &Arena, cs: &[E], dump: Option<&mut String>) -> Sat {
        let mut sup = [0u64; 4];
        for e in cs { for j in 0..4 { sup[j] |= ar.sup[*e as usize][j]; } }
        unsafe {
            let c = self.cx;
            if self.act.len() > 400 {
                // start over before the accumulated constraints become a burden
                Z3_solver_dec_ref(c, self.solver);
                self.solver = Self::mk(c, self.mode);
                self.params(self.solver);
                self.act.clear();
                self.act_back.clear();
            }
            if let Some(d) = dump {
                let s2 = Self::mk(c, 1);
                for e in cs { let a = self.tr(ar, *e); Z3_solver_assert(c, s2, a); }
                *d = CStr::from_ptr(Z3_solver_to_string(c, s2)).to_string_lossy().into_owned();
                Z3_solver_dec_ref(c, s2);
            }
            let ps: Vec<Ast> = cs.iter().map(|e| self.activate(ar, *e)).collect();
            let mut s = self.solver;
            let mut r = Z3_solver_check_assumptions(c, s, ps.len() as c_uint, ps.as_ptr());
            let mut core: Vec<E> = cs.to_vec();
            let mut other: Option<Solver> = None;
            if r == -1 {
                let v = Z3_solver_get_unsat_core(c, s);
                Z3_ast_vector_inc_ref(c, v);
                let n = Z3_ast_vector_size(c, v);
                let k: Option<Vec<E>> = (0..n).map(|i| self.act_back.get(&(Z3_ast_vector_get(c, v, i) as usize)).copied()).collect();
                if let Some(k) = k { core = k; }
                Z3_ast_vector_dec_ref(c, v);
            }
            if r == 0 {
                // second attempt: a fresh solver of the other kind
                let s2 = Self::mk(c, 1 - self.mode);
                self.params(s2);
                for e in cs { let a = self.tr(ar, *e); Z3_solver_assert(c, s2, a); }
                r = Z3_solver_check(c, s2);
                other = Some(s2);
                s = s2;
            }
            let out = match r {
                -1 => Sat::Unsat(core),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for (i, a) in &self.vars {
                        let j = *i as usize;
                        if sup[(j / 64) % 4] >> (j % 64) & 1 == 0 { continue; }
                        let mut o: Ast = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, *a, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut u) {
                            v.push((*i, u as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Sat::Sat(v)
                }
                _ => Sat::Unknown,
            };
            if let Some(s2) = other { Z3_solver_dec_ref(c, s2); }
            if Z3_get_error_code(c) != 0 { panic!("z3 error"); }
            out
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.cx, self.solver);
            Z3_del_context(self.cx);
        }
    }
}
