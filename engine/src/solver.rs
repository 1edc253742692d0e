//! z3 back end (libz3 through its C API) with a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
}

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    cx: P,
    sv: P,
    bv: HashMap<E, P, BuildFx>,
    bo: HashMap<E, P, BuildFx>,
    cache: HashMap<(Vec<E>, Vec<(u32, Dom)>), Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    since_reset: u64,
    timeout_ms: u64,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        let mut s = Solver { cx: std::ptr::null_mut(), sv: std::ptr::null_mut(), bv: HashMap::default(), bo: HashMap::default(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, time: 0.0, since_reset: 0, timeout_ms };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.cx.is_null() { Z3_del_context(self.cx) }
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(self.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // Z3_mk_context (not _rc): ASTs live as long as the context
            self.cx = Z3_mk_context(cfg);
            self.sv = Z3_mk_simple_solver(self.cx);
            Z3_solver_inc_ref(self.cx, self.sv);
        }
        self.bv.clear();
        self.bo.clear();
        self.since_reset = 0;
    }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        if w <= 64 { Z3_mk_unsigned_int64(self.cx, v as u64, Z3_mk_bv_sort(self.cx, w as c_uint)) }
        else { let h = self.num(v >> 64, w - 64); let l = self.num(v & u64::MAX as u128, 64); Z3_mk_concat(self.cx, h, l) }
    }
    unsafe fn to_bv(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p }
        let w = x.w(e);
        let c = self.cx;
        let r = match x.k(e) {
            K::Const(v) => self.num(v, w),
            K::Sym(s) => Z3_mk_const(c, Z3_mk_int_symbol(c, s as c_int), Z3_mk_bv_sort(c, 8)),
            K::Concat(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_concat(c, p, q) }
            K::ZExt(a) => { let p = self.to_bv(x, a); Z3_mk_zero_ext(c, (w - x.w(a)) as c_uint, p) }
            K::SExt(a) => { let p = self.to_bv(x, a); Z3_mk_sign_ext(c, (w - x.w(a)) as c_uint, p) }
            K::Extract(a, lo) => { let p = self.to_bv(x, a); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p) }
            K::Ite(a, b, d) if w > 1 => { let p = self.to_bool(x, a); let (q, r) = (self.to_bv(x, b), self.to_bv(x, d)); Z3_mk_ite(c, p, q, r) }
            K::Lut(t, s) => {
                let sy = Z3_mk_const(c, Z3_mk_int_symbol(c, s as c_int), Z3_mk_bv_sort(c, 8));
                let tab = x.luts[t as usize].clone();
                // most frequent value is the default
                let mut cnt: HashMap<u64, u32> = HashMap::new();
                for v in tab.iter() { *cnt.entry(*v).or_insert(0) += 1 }
                let d = *cnt.iter().max_by_key(|(v, n)| (**n, **v)).unwrap().0;
                let mut r = self.num(d as u128, w);
                for (i, v) in tab.iter().enumerate() { if *v != d { let k = self.num(i as u128, 8); let q = self.num(*v as u128, w); r = Z3_mk_ite(c, Z3_mk_eq(c, sy, k), q, r) } }
                r
            }
            K::Add(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvadd(c, p, q) }
            K::Sub(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvsub(c, p, q) }
            K::Mul(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvmul(c, p, q) }
            K::UDiv(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvudiv(c, p, q) }
            K::URem(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvurem(c, p, q) }
            K::SDiv(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvsdiv(c, p, q) }
            K::SRem(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvsrem(c, p, q) }
            K::Shl(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvshl(c, p, q) }
            K::LShr(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvlshr(c, p, q) }
            K::AShr(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvashr(c, p, q) }
            K::And(a, b) if w > 1 => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvand(c, p, q) }
            K::Or(a, b) if w > 1 => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvor(c, p, q) }
            K::Xor(a, b) if w > 1 => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvxor(c, p, q) }
            _ => { let p = self.to_bool(x, e); let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, p, o, z) }
        };
        self.bv.insert(e, r);
        r
    }
    /// membership of a symbolic byte in a set, as a disjunction of intervals
    unsafe fn ranges(&mut self, sy: u32, d: &Dom) -> P {
        let c = self.cx;
        let v = Z3_mk_const(c, Z3_mk_int_symbol(c, sy as c_int), Z3_mk_bv_sort(c, 8));
        let mut ors = vec![];
        let mut a = 0u32;
        while a < 256 {
            if !dom_has(d, a as u8) { a += 1; continue }
            let mut b = a;
            while b < 255 && dom_has(d, (b + 1) as u8) { b += 1 }
            let (na, nb) = (self.num(a as u128, 8), self.num(b as u128, 8));
            if a == b { ors.push(Z3_mk_eq(c, v, na)) }
            else { let q = [Z3_mk_bvule(c, na, v), Z3_mk_bvule(c, v, nb)]; ors.push(Z3_mk_and(c, 2, q.as_ptr())) }
            a = b + 1;
        }
        Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr())
    }
    unsafe fn to_bool(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.bo.get(&e) { return *p }
        let c = self.cx;
        debug_assert!(x.w(e) == 1);
        if let Supp::One(s) = x.supp(e) {
            let mut d = [0u64; 4];
            for v in 0..=255u8 { if x.eval1(e, v) == 1 { dom_set(&mut d, v) } }
            let r = self.ranges(*s, &d);
            self.bo.insert(e, r);
            return r;
        }
        let r = match x.k(e) {
            K::Const(1) => Z3_mk_true(c),
            K::Const(_) => Z3_mk_false(c),
            K::And(a, b) => { let v = [self.to_bool(x, a), self.to_bool(x, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            K::Or(a, b) => { let v = [self.to_bool(x, a), self.to_bool(x, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            K::Xor(a, b) => if x.cst(b) == Some(1) { let p = self.to_bool(x, a); Z3_mk_not(c, p) } else { let (p, q) = (self.to_bool(x, a), self.to_bool(x, b)); Z3_mk_xor(c, p, q) },
            K::Eq(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_eq(c, p, q) }
            K::Ult(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvult(c, p, q) }
            K::Ule(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvule(c, p, q) }
            K::Slt(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvslt(c, p, q) }
            K::Sle(a, b) => { let (p, q) = (self.to_bv(x, a), self.to_bv(x, b)); Z3_mk_bvsle(c, p, q) }
            K::Ite(a, b, d) => { let (p, q, r) = (self.to_bool(x, a), self.to_bool(x, b), self.to_bool(x, d)); Z3_mk_ite(c, p, q, r) }
            _ => { let p = self.to_bv(x, e); let o = self.num(1, 1); Z3_mk_eq(c, p, o) }
        };
        self.bo.insert(e, r);
        r
    }
    /// Is the conjunction of `cs` satisfiable when every symbol listed in `doms` lies in its domain?
    pub fn check(&mut self, x: &Exprs, mut cs: Vec<E>, mut doms: Vec<(u32, Dom)>) -> Res {
        cs.sort();
        cs.dedup();
        doms.sort();
        let key = (cs, doms);
        if let Some(r) = self.cache.get(&key) { self.cache_hits += 1; return r.clone() }
        if self.since_reset > 20000 { self.reset() }
        self.since_reset += 1;
        let t0 = Instant::now();
        let res = unsafe {
            let c = self.cx;
            let s = self.sv;
            Z3_solver_push(c, s);
            for (sy, d) in key.1.iter() {
                if *d == FULL { continue }
                let f = self.ranges(*sy, d);
                Z3_solver_assert(c, s, f);
            }
            for e in key.0.iter() { let p = self.to_bool(x, *e); Z3_solver_assert(c, s, p) }
            let r = Z3_solver_check(c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (sy, _) in key.1.iter() {
                        let v = Z3_mk_const(c, Z3_mk_int_symbol(c, *sy as c_int), Z3_mk_bv_sort(c, 8));
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, v, true, &mut r);
                        let mut n = 0u64;
                        Z3_get_numeral_uint64(c, r, &mut n);
                        out.push((*sy, n as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, s, 1);
            res
        };
        self.queries += 1;
        match res { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        self.time += t0.elapsed().as_secs_f64();
        if std::env::var("SYMEX_DEBUG").is_ok() { eprintln!("query {:.4} {:?} {}", t0.elapsed().as_secs_f64(), key.0.len(), key.0.iter().map(|e| x.show(*e, 8)).collect::<Vec<_>>().join(" && ")) }
        if self.cache.len() > 200_000 { self.cache.clear() }
        self.cache.insert(key, res.clone());
        res
    }
}
