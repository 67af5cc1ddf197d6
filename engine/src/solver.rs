//! Z3 back end (QF_BV) through the C API of the system libz3.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case, dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
pub fn dom_has(d: &Dom, v: u8) -> bool { d[v as usize / 64] >> (v % 64) & 1 == 1 }
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 { if d[i] != 0 { return Some((i * 64) as u8 + d[i].trailing_zeros() as u8); } }
    None
}
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub cache_hits: u64, pub secs: f64, pub max_ms: f64 }

pub struct Solver {
    ctx: P,
    s: P,
    bv: HashMap<(u128, u32), P>,
    bo: HashMap<u128, P>,
    vars: HashMap<u32, P>,
    n: u64,
    cache: HashMap<u128, Option<Vec<(u32, u8)>>>,
    pub stats: Stats,
    timeout_ms: u32,
}
unsafe impl Send for Solver {}

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), vars: HashMap::new(), n: 0, cache: HashMap::new(), stats: Stats::default(), timeout_ms };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let c = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(c, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(c);
            Z3_del_config(c);
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.bv.clear();
        self.bo.clear();
        self.vars.clear();
    }
    fn var(&mut self, v: u32) -> P {
        if let Some(p) = self.vars.get(&v) { return *p; }
        unsafe {
            let p = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), Z3_mk_bv_sort(self.ctx, 8));
            self.vars.insert(v, p);
            p
        }
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { return Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, w)); }
            let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, 64));
            let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, Z3_mk_bv_sort(self.ctx, w - 64));
            Z3_mk_concat(self.ctx, hi, lo)
        }
    }
    fn to_bv(&mut self, e: &E) -> P {
        if let Some(p) = self.bv.get(&(e.h, e.w)) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match &e.k {
                K::Var(v) => self.var(*v),
                K::Const(v) => self.num(*v, e.w),
                K::Bin(o, a, b) => match o {
                    O::Eq | O::Ult | O::Ule | O::Slt | O::Sle => {
                        let p = self.to_bool(e);
                        let (t, f) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, p, t, f)
                    }
                    _ => {
                        let x = self.to_bv(a);
                        let y = self.to_bv(b);
                        match o {
                            O::Add => Z3_mk_bvadd(c, x, y), O::Sub => Z3_mk_bvsub(c, x, y), O::Mul => Z3_mk_bvmul(c, x, y),
                            O::UDiv => Z3_mk_bvudiv(c, x, y), O::SDiv => Z3_mk_bvsdiv(c, x, y), O::URem => Z3_mk_bvurem(c, x, y), O::SRem => Z3_mk_bvsrem(c, x, y),
                            O::And => Z3_mk_bvand(c, x, y), O::Or => Z3_mk_bvor(c, x, y), O::Xor => Z3_mk_bvxor(c, x, y),
                            O::Shl => Z3_mk_bvshl(c, x, y), O::LShr => Z3_mk_bvlshr(c, x, y), O::AShr => Z3_mk_bvashr(c, x, y),
                            O::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                },
                K::Ite(p, a, b) => { let p = self.to_bool(p); let a = self.to_bv(a); let b = self.to_bv(b); Z3_mk_ite(c, p, a, b) }
                K::Extract(l, a) => { let x = self.to_bv(a); Z3_mk_extract(c, l + e.w - 1, *l, x) }
                K::ZExt(a) => { let x = self.to_bv(a); Z3_mk_zero_ext(c, e.w - a.w, x) }
                K::SExt(a) => { let x = self.to_bv(a); Z3_mk_sign_ext(c, e.w - a.w, x) }
            }
        };
        self.bv.insert((e.h, e.w), r);
        r
    }
    fn to_bool(&mut self, e: &E) -> P {
        if let Some(p) = self.bo.get(&e.h) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match &e.k {
                K::Const(v) => if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                K::Bin(o @ (O::Eq | O::Ult | O::Ule | O::Slt | O::Sle), a, b) => {
                    let x = self.to_bv(a);
                    let y = self.to_bv(b);
                    match o { O::Eq => Z3_mk_eq(c, x, y), O::Ult => Z3_mk_bvult(c, x, y), O::Ule => Z3_mk_bvule(c, x, y), O::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) }
                }
                K::Bin(O::And, a, b) => { let v = [self.to_bool(a), self.to_bool(b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(O::Or, a, b) => { let v = [self.to_bool(a), self.to_bool(b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(O::Xor, a, b) if as_const(b) == Some(1) => { let x = self.to_bool(a); Z3_mk_not(c, x) }
                K::Ite(p, a, b) => { let p = self.to_bool(p); let a = self.to_bool(a); let b = self.to_bool(b); Z3_mk_ite(c, p, a, b) }
                _ => { let x = self.to_bv(e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.bo.insert(e.h, r);
        r
    }
    fn dom_ast(&mut self, v: u32, d: &Dom) -> P {
        let x = self.var(v);
        let mut ranges = Vec::new();
        let mut i = 0usize;
        while i < 256 {
            if dom_has(d, i as u8) {
                let s = i;
                while i < 256 && dom_has(d, i as u8) { i += 1; }
                ranges.push((s, i - 1));
            } else { i += 1; }
        }
        let c = self.ctx;
        unsafe {
            let mut ors = Vec::new();
            for (a, b) in ranges {
                let (na, nb) = (self.num(a as u128, 8), self.num(b as u128, 8));
                if a == b { ors.push(Z3_mk_eq(c, x, na)); } else {
                    let v = [Z3_mk_bvule(c, na, x), Z3_mk_bvule(c, x, nb)];
                    ors.push(Z3_mk_and(c, 2, v.as_ptr()));
                }
            }
            if ors.len() == 1 { ors[0] } else { Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()) }
        }
    }
    pub fn check(&mut self, cons: &[E], doms: &[(u32, Dom)]) -> Res {
        // cache key: order independent over constraints
        let mut key: u128 = 0x1234567;
        for c in cons { key = key.wrapping_add(c.h.wrapping_mul(c.h | 1)); }
        for (v, d) in doms {
            if *d != FULL {
                let mut k: u128 = *v as u128 + 77;
                for x in d { k = k.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).wrapping_add(*x as u128 ^ (k >> 64)); }
                key = key.wrapping_add(k.wrapping_mul(k | 1));
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        self.n += 1;
        if self.n % 5000 == 0 {
            unsafe { Z3_del_context(self.ctx); }
            self.init();
        }
        if self.cache.len() > 200000 { self.cache.clear(); }
        let t = Instant::now();
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            for (v, d) in doms {
                if *d != FULL {
                    let a = self.dom_ast(*v, d);
                    Z3_solver_assert(self.ctx, self.s, a);
                }
            }
            for c in cons {
                let a = self.to_bool(c);
                Z3_solver_assert(self.ctx, self.s, a);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Vec::new();
                    for (v, d) in doms {
                        let x = self.var(*v);
                        let mut o: P = std::ptr::null_mut();
                        let mut n: u64 = 0;
                        if !Z3_model_eval(self.ctx, m, x, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut n) { panic!("z3 model"); }
                        let _ = d;
                        out.push((*v, n as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.stats.sat += 1;
                    Res::Sat(out)
                }
                -1 => { self.stats.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            let dt = t.elapsed().as_secs_f64();
            self.stats.queries += 1;
            self.stats.secs += dt;
            if dt * 1000.0 > self.stats.max_ms { self.stats.max_ms = dt * 1000.0; }
            match &res {
                Res::Sat(m) => { self.cache.insert(key, Some(m.clone())); }
                Res::Unsat => { self.cache.insert(key, None); }
                _ => {}
            }
            res
        }
    }
}
