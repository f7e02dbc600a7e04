//! Minimal Z3 binding (C API of the installed libz3).
#![allow(non_camel_case_types, non_snake_case)]

use crate::expr::{Arena, Id, Node};
use crate::ll::{BinOp, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
}

pub enum Sat {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    memo: Vec<P>,
    one: P,
    zero: P,
    uses: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_query: f64,
    pub dump: Option<Vec<(String, bool)>>,
    timeout_ms: u32,
}

unsafe impl Send for Solver {}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            memo: vec![],
            one: std::ptr::null_mut(),
            zero: std::ptr::null_mut(),
            uses: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            time: 0.0,
            max_query: 0.0,
            dump: None,
            timeout_ms,
        };
        s.fresh_ctx();
        s
    }
    fn fresh_ctx(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(self.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, std::ptr::null());
            Z3_del_config(cfg);
            self.s = self.mk_solver();
            let t = Z3_mk_bv_sort(self.c, 1);
            self.one = Z3_mk_unsigned_int64(self.c, 1, t);
            self.zero = Z3_mk_unsigned_int64(self.c, 0, t);
        }
        self.memo.clear();
        self.uses = 0;
    }
    unsafe fn mk_solver(&self) -> P {
        let l = CString::new("QF_BV").unwrap();
        let sy = Z3_mk_string_symbol(self.c, l.as_ptr());
        let s = Z3_mk_solver_for_logic(self.c, sy);
        Z3_solver_inc_ref(self.c, s);
        s
    }
    /// New path: drops all assertions.
    pub fn reset(&mut self) {
        self.uses += 1;
        if self.uses > 50 {
            self.fresh_ctx();
            return;
        }
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            self.s = self.mk_solver();
        }
        self.memo.clear();
    }
    fn ast(&mut self, a: &Arena, e: Id) -> P {
        if self.memo.len() < a.nodes.len() {
            self.memo.resize(a.nodes.len(), std::ptr::null_mut());
        }
        if !self.memo[e as usize].is_null() {
            return self.memo[e as usize];
        }
        let w = a.w[e as usize];
        let c = self.c;
        let r = unsafe {
            match a.nodes[e as usize] {
                Node::Var(i, w) => {
                    let n = CString::new(format!("v{}", i)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Node::Const(k, _) => {
                    let t = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, k as u64, t)
                    } else {
                        let n = CString::new(k.to_string()).unwrap();
                        Z3_mk_numeral(c, n.as_ptr(), t)
                    }
                }
                Node::Bin(op, x, y) => {
                    let x = self.ast(a, x);
                    let y = self.ast(a, y);
                    let f = match op {
                        BinOp::Add => Z3_mk_bvadd,
                        BinOp::Sub => Z3_mk_bvsub,
                        BinOp::Mul => Z3_mk_bvmul,
                        BinOp::UDiv => Z3_mk_bvudiv,
                        BinOp::SDiv => Z3_mk_bvsdiv,
                        BinOp::URem => Z3_mk_bvurem,
                        BinOp::SRem => Z3_mk_bvsrem,
                        BinOp::Shl => Z3_mk_bvshl,
                        BinOp::LShr => Z3_mk_bvlshr,
                        BinOp::AShr => Z3_mk_bvashr,
                        BinOp::And => Z3_mk_bvand,
                        BinOp::Or => Z3_mk_bvor,
                        BinOp::Xor => Z3_mk_bvxor,
                    };
                    f(c, x, y)
                }
                Node::Cmp(p, x, y) => {
                    let x = self.ast(a, x);
                    let y = self.ast(a, y);
                    let b = match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    };
                    Z3_mk_ite(c, b, self.one, self.zero)
                }
                Node::Ite(k, x, y) => {
                    let k = self.ast(a, k);
                    let x = self.ast(a, x);
                    let y = self.ast(a, y);
                    Z3_mk_ite(c, Z3_mk_eq(c, k, self.one), x, y)
                }
                Node::Zext(x, w) => {
                    let n = w - a.w[x as usize];
                    let x = self.ast(a, x);
                    Z3_mk_zero_ext(c, n, x)
                }
                Node::Sext(x, w) => {
                    let n = w - a.w[x as usize];
                    let x = self.ast(a, x);
                    Z3_mk_sign_ext(c, n, x)
                }
                Node::Extract(x, lo, w) => {
                    let x = self.ast(a, x);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                Node::Concat(h, l) => {
                    let h = self.ast(a, h);
                    let l = self.ast(a, l);
                    Z3_mk_concat(c, h, l)
                }
            }
        };
        self.memo[e as usize] = r;
        r
    }
    /// Asserts that the 1-bit expression equals `v`.
    pub fn assert(&mut self, a: &Arena, e: Id, v: bool) {
        let x = self.ast(a, e);
        unsafe {
            let k = if v { self.one } else { self.zero };
            let f = Z3_mk_eq(self.c, x, k);
            Z3_solver_assert(self.c, self.s, f);
        }
    }
    /// Is `path and (e == v)` satisfiable?
    pub fn check(&mut self, a: &Arena, e: Id, v: bool, vars: &[Id]) -> Sat {
        let t0 = std::time::Instant::now();
        let r;
        unsafe {
            Z3_solver_push(self.c, self.s);
            self.assert(a, e, v);
            let st = Z3_solver_check(self.c, self.s);
            r = match st {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::with_capacity(vars.len());
                    for &x in vars {
                        let ax = self.ast(a, x);
                        let mut o = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, ax, true, &mut o) {
                            Z3_get_numeral_uint64(self.c, o, &mut u);
                        }
                        out.push(u);
                    }
                    Z3_model_dec_ref(self.c, m);
                    Sat::Sat(out)
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if let Some(d) = &mut self.dump {
                if d.len() < 400 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    match r {
                        Sat::Sat(_) => d.push((s, true)),
                        Sat::Unsat => d.push((s, false)),
                        _ => {}
                    }
                }
            }
            if Z3_get_error_code(self.c) != 0 {
                eprintln!("z3 error {}", Z3_get_error_code(self.c));
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        match &r {
            Sat::Sat(_) => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            _ => {}
        }
        r
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
