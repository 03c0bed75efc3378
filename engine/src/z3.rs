//! Minimal FFI to libz3 (QF_BV).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

unsafe extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_global_param_set(a: *const c_char, b: *const c_char);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const std::ffi::c_char;
    fn Z3_substitute(c: Ctx, a: Ast, n: u32, from: *const Ast, to: *const Ast) -> Ast;
    fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvmul_no_overflow(c: Ctx, a: Ast, b: Ast, s: bool) -> Ast;
    fn Z3_mk_bvmul_no_underflow(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
}

extern "C" fn on_err(_c: Ctx, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

pub fn global_init() {
    unsafe {
        let a = CString::new("memory_max_size").unwrap();
        let b = CString::new("8000").unwrap();
        let _ = (&a, &b);
        let c = CString::new("parallel.enable").unwrap();
        let d = CString::new("false").unwrap();
        Z3_global_param_set(c.as_ptr(), d.as_ptr());
    }
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    sorts: HashMap<u32, Sort>,
    ast: HashMap<E, Ast, BuildFx>,   // bit-vector translation
    bast: HashMap<E, Ast, BuildFx>,  // boolean translation of 1-bit
    vars: HashMap<u32, Ast>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub certs: u64,
    pub time: f64,
    pub maxt: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, sorts: HashMap::new(), ast: HashMap::default(), bast: HashMap::default(), vars: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, certs: 0, time: 0.0, maxt: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 { let s = self.sort(w); Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else {
                let h = self.num(v >> 64, w - 64);
                let l = self.num(v & u64::MAX as u128, 64);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn var(&mut self, i: u32, w: u32) -> Ast {
        let k = i << 8 | w;
        if let Some(a) = self.vars.get(&k) { return *a; }
        let s = self.sort(w);
        let a = unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, k as c_int), s) };
        self.vars.insert(k, a);
        a
    }
    fn b2bv(&mut self, b: Ast) -> Ast {
        let o = self.num(1, 1);
        let z = self.num(0, 1);
        unsafe { Z3_mk_ite(self.c, b, o, z) }
    }
    pub fn boolean(&mut self, x: &Exprs, e: E) -> Ast {
        if let Some(a) = self.bast.get(&e) { return *a; }
        let n = x.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::SMulOvf | Op::UMulOvf => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        Op::UMulOvf => Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false)),
                        _ => {
                            let v = [Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, true)), Z3_mk_not(c, Z3_mk_bvmul_no_underflow(c, a, b))];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                Op::InSet => { let (v, w) = (x.nodes[n.a as usize].a, x.w(n.a)); self.member(v, w, &x.sets[n.b as usize].0) }
                Op::And | Op::Or => {
                    let v = [self.boolean(x, n.a), self.boolean(x, n.b)];
                    if n.op == Op::And { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) }
                }
                Op::Xor if x.as_const(n.b) == Some(1) => { let a = self.boolean(x, n.a); Z3_mk_not(c, a) }
                Op::Ite => {
                    let (p, q, r) = (self.boolean(x, n.a), self.boolean(x, n.b), self.boolean(x, n.c));
                    Z3_mk_ite(c, p, q, r)
                }
                _ => {
                    let a = self.bv(x, e);
                    let o = self.num(1, 1);
                    Z3_mk_eq(c, a, o)
                }
            }
        };
        self.bast.insert(e, r);
        r
    }
    pub fn bv(&mut self, x: &Exprs, e: E) -> Ast {
        if let Some(a) = self.ast.get(&e) { return *a; }
        let n = x.nodes[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::None => panic!("bv of none"),
                Op::Const => self.num(x.consts[n.a as usize], w),
                Op::Var => self.var(n.a, w),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::SMulOvf | Op::UMulOvf | Op::InSet => { let b = self.boolean(x, e); self.b2bv(b) }
                Op::Ite => {
                    let p = self.boolean(x, n.a);
                    let a = self.bv(x, n.b);
                    let b = self.bv(x, n.c);
                    Z3_mk_ite(c, p, a, b)
                }
                Op::ZExt => { let a = self.bv(x, n.a); Z3_mk_zero_ext(c, w - x.w(n.a), a) }
                Op::SExt => { let a = self.bv(x, n.a); Z3_mk_sign_ext(c, w - x.w(n.a), a) }
                Op::Extract => { let a = self.bv(x, n.a); Z3_mk_extract(c, n.b + w - 1, n.b, a) }
                Op::Concat => { let a = self.bv(x, n.a); let b = self.bv(x, n.b); Z3_mk_concat(c, a, b) }
                Op::Table => {
                    let iw = x.w(n.a);
                    let idx = self.bv(x, n.a);
                    let len = x.tables[n.b as usize].len() as u128;
                    // group runs of equal results
                    let mut runs: Vec<(u128, u128, u128)> = vec![]; // lo, hi, val
                    for o in 0..len {
                        let v = x.table_read(n.b, o, w);
                        match runs.last_mut() {
                            Some(l) if l.2 == v => l.1 = o,
                            _ => runs.push((o, o, v)),
                        }
                    }
                    let mut acc = self.num(0, w);
                    for (_, hi, v) in runs.into_iter().rev() {
                        let k = self.num(hi, iw);
                        let vv = self.num(v, w);
                        let cnd = Z3_mk_bvule(c, idx, k);
                        acc = Z3_mk_ite(c, cnd, vv, acc);
                    }
                    acc
                }
                Op::And | Op::Or | Op::Xor if w == 1 => { let b = self.boolean1(x, e); self.b2bv(b) }
                op => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast.insert(e, r);
        r
    }
    fn boolean1(&mut self, x: &Exprs, e: E) -> Ast {
        let n = x.nodes[e as usize];
        let c = self.c;
        unsafe {
            match n.op {
                Op::Xor if x.as_const(n.b) != Some(1) => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    Z3_mk_not(c, Z3_mk_eq(c, a, b))
                }
                _ => self.boolean(x, e),
            }
        }
    }
    fn finish(&mut self, r: c_int, t0: Instant) {
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxt { self.maxt = dt; }
        self.queries += 1;
        match r { 1 => self.sat += 1, -1 => self.unsat += 1, _ => self.unknown += 1 }
    }
    /// satisfiability of the conjunction; on Sat returns the values of `vars`
    pub fn check(&mut self, x: &Exprs, cs: &[E], vars: &[(u32, u32)]) -> Res {
        let t0 = Instant::now();
        let asts: Vec<Ast> = cs.iter().map(|&e| self.boolean(x, e)).collect();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asts { Z3_solver_assert(self.c, self.s, *a); }
            let r = Z3_solver_check(self.c, self.s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for &(i, w) in vars {
                    let v = self.var(i, w);
                    let mut o: Ast = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, v, true, &mut o);
                    let mut n = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut n);
                    out.push((i, n));
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(out)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            Z3_solver_pop(self.c, self.s, 1);
            self.finish(r, t0);
            if std::env::var("SLOWQ").is_ok() && t0.elapsed().as_secs_f64() > std::env::var("SLOWQ").unwrap().parse().unwrap_or(1.0) { for &a in &asts { let st = Z3_ast_to_string(self.c, a); eprintln!("SLOW check r {r} {:.1}: {}", t0.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(st).to_string_lossy().chars().take(600).collect::<String>()); } }
            res
        }
    }
    /// v is in the set, as ranges
    fn member(&mut self, v: u32, w: u32, bits: &[u64]) -> Ast {
        let c = self.c;
        let var = self.var(v, w);
        let total = 1u32 << w;
        let mut ors = vec![];
        let get = |i: u32| bits[i as usize / 64] >> (i % 64) & 1 == 1;
        let mut i = 0;
        while i < total {
            if !get(i) { i += 1; continue; }
            let s = i;
            while i + 1 < total && get(i + 1) { i += 1; }
            let (lo, hi) = (self.num(s as u128, w), self.num(i as u128, w));
            unsafe {
                ors.push(if s == i { Z3_mk_eq(c, var, lo) } else {
                    let p = [Z3_mk_bvule(c, lo, var), Z3_mk_bvule(c, var, hi)];
                    Z3_mk_and(c, 2, p.as_ptr())
                });
            }
            i += 1;
        }
        unsafe { Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()) }
    }
    /// prove: e (1-bit, over variable v of width w) is true exactly on the given set (as ranges)
    pub fn certify(&mut self, x: &Exprs, e: E, v: u32, w: u32, bits: &[u64]) -> c_int {
        let t0 = Instant::now();
        let c = self.c;
        let a = self.boolean(x, e);
        if x.wide_mul(e) {
            // 128-bit products are hard to bit-blast: instantiate the predicate value by value
            self.certs += 1;
            if w > 8 { return 0; }
            let var = self.var(v, w);
            for i in 0..1u32 << w {
                let k = self.num(i as u128, w);
                let r = unsafe { Z3_get_bool_value(c, Z3_simplify(c, Z3_substitute(c, a, 1, &var, &k))) };
                let want = if bits[i as usize / 64] >> (i % 64) & 1 == 1 { 1 } else { -1 };
                if r == 0 { return 0; }
                if r != want { return 1; }
            }
            self.finish(-1, t0);
            return -1;
        }
        let m = self.member(v, w, bits);
        unsafe {
            Z3_solver_push(c, self.s);
            Z3_solver_assert(c, self.s, Z3_mk_not(c, Z3_mk_eq(c, a, m)));
            let r = Z3_solver_check(c, self.s);
            Z3_solver_pop(c, self.s, 1);
            self.certs += 1;
            self.finish(r, t0);
            if std::env::var("SLOWQ").is_ok() && t0.elapsed().as_secs_f64() > std::env::var("SLOWQ").unwrap().parse().unwrap_or(1.0) { let st = Z3_ast_to_string(c, a); eprintln!("SLOW cert r {r} {:.1}: {}", t0.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(st).to_string_lossy().chars().take(1500).collect::<String>()); }
            r
        }
    }
}
