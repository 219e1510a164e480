//! Translation of expressions to Z3 and the satisfiability queries.

use crate::expr::{BuildFx, Exprs, Id, Op};
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, v: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub type Dom = [u64; 4];

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<Id, P, BuildFx>,
    bl: HashMap<Id, P, BuildFx>,
    dm: HashMap<(u32, Dom), P>,
    sorts: HashMap<u32, P>,
    n_since: u32,
    rlimit: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
    pub max_ns: u64,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let mut z = Z3 {
                c,
                s: std::ptr::null_mut(),
                bv: HashMap::default(),
                bl: HashMap::default(),
                dm: HashMap::new(),
                sorts: HashMap::new(),
                n_since: 0,
                rlimit: 50_000_000,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                nanos: 0,
                max_ns: 0,
            };
            z.fresh();
            z
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.c, sym);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.c, self.s, p);
            self.n_since = 0;
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn varp(&mut self, i: u32) -> P {
        let s = self.sort(8);
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), s) }
    }
    fn boolean(&mut self, ex: &Exprs, e: Id) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = ex.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k & 1 == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if ex.w(n.a) == 1 => {
                    let (a, b) = (self.boolean(ex, n.a), self.boolean(ex, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bits(ex, n.a), self.bits(ex, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(ex, n.a), self.boolean(ex, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.boolean(ex, n.a);
                    if ex.cval(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolean(ex, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (x, a, b) = (self.boolean(ex, n.a), self.boolean(ex, n.b), self.boolean(ex, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                _ => {
                    let a = self.bits(ex, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn bits(&mut self, ex: &Exprs, e: Id) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = ex.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w as u32, ex.cval(e).unwrap()),
                Op::Var => self.varp(n.k as u32),
                _ if n.w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Ite) => {
                    let b = self.boolean(ex, e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let x = self.boolean(ex, n.a);
                    let (a, b) = (self.bits(ex, n.b), self.bits(ex, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Extract => {
                    let a = self.bits(ex, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a)
                }
                Op::Zext => {
                    let a = self.bits(ex, n.a);
                    Z3_mk_zero_ext(c, n.w as u32 - ex.w(n.a), a)
                }
                Op::Sext => {
                    let a = self.bits(ex, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - ex.w(n.a), a)
                }
                Op::Tab => {
                    let a = self.bits(ex, n.a);
                    let t = ex.tables[n.k as usize].clone();
                    // nested ite over runs of equal values, from the top down
                    let mut hi = 255usize;
                    let mut runs = vec![];
                    loop {
                        let mut lo = hi;
                        while lo > 0 && t[lo - 1] == t[hi] {
                            lo -= 1;
                        }
                        runs.push((lo, t[hi]));
                        if lo == 0 {
                            break;
                        }
                        hi = lo - 1;
                    }
                    runs.reverse();
                    let mut r = self.num(n.w as u32, runs[0].1 as u128);
                    for (lo, v) in &runs[1..] {
                        let l = self.num(8, *lo as u128);
                        let v = self.num(n.w as u32, *v as u128);
                        let g = Z3_mk_bvule(c, l, a);
                        r = Z3_mk_ite(c, g, v, r);
                    }
                    r
                }
                _ => {
                    let (a, b) = (self.bits(ex, n.a), self.bits(ex, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("no translation of {:?}", o),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn domain(&mut self, v: u32, d: &Dom) -> Option<P> {
        if *d == [!0u64; 4] {
            return None;
        }
        if let Some(p) = self.dm.get(&(v, *d)) {
            return Some(*p);
        }
        let x = self.varp(v);
        let c = self.c;
        let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
        let mut alts = vec![];
        let mut i = 0;
        while i < 256 {
            if !has(i) {
                i += 1;
                continue;
            }
            let lo = i;
            while i < 256 && has(i) {
                i += 1;
            }
            let hi = i - 1;
            let l = self.num(8, lo as u128);
            let h = self.num(8, hi as u128);
            unsafe {
                alts.push(if lo == hi {
                    Z3_mk_eq(c, x, l)
                } else {
                    let both = [Z3_mk_bvule(c, l, x), Z3_mk_bvule(c, x, h)];
                    Z3_mk_and(c, 2, both.as_ptr())
                });
            }
        }
        let r = unsafe {
            if alts.len() == 1 {
                alts[0]
            } else {
                Z3_mk_or(c, alts.len() as u32, alts.as_ptr())
            }
        };
        self.dm.insert((v, *d), r);
        Some(r)
    }

    /// Satisfiability of the conditions together with the byte domains;
    /// on success the values of `vars` are returned.
    pub fn check(&mut self, ex: &Exprs, conds: &[Id], doms: &[(u32, Dom)]) -> Res {
        let t0 = std::time::Instant::now();
        if self.n_since > 4000 {
            self.fresh();
        }
        self.n_since += 1;
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if let Some(p) = self.domain(*v, d) {
                    Z3_solver_assert(self.c, self.s, p);
                }
            }
            for e in conds {
                let p = self.boolean(ex, *e);
                Z3_solver_assert(self.c, self.s, p);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = if Z3_get_error_code(self.c) != 0 {
                Res::Unknown
            } else if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                let mut ok = true;
                for (v, _) in doms {
                    let x = self.varp(*v);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if !Z3_model_eval(self.c, m, x, true, &mut o) || !Z3_get_numeral_uint64(self.c, o, &mut u) {
                        ok = false;
                    }
                    vals.push(u as u8);
                }
                Z3_model_dec_ref(self.c, m);
                if ok {
                    Res::Sat(vals)
                } else {
                    Res::Unknown
                }
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let ns = t0.elapsed().as_nanos() as u64;
        self.nanos += ns;
        self.max_ns = self.max_ns.max(ns);
        r
    }
}
