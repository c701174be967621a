//! Z3 back end (C API) plus exact finite-domain reasoning for single-variable constraints.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_error(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {}", std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(3);
}
pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_queries: u64, pub z3_sat: u64, pub z3_unsat: u64, pub z3_ns: u64, pub cache_hits: u64, pub domain_decisions: u64,
    pub assert_queries: u64, pub assert_unsat: u64, pub cross_checks: u64, pub z3_max_ns: u64,
}

pub struct Z3 {
    c: P, s: P, bv: HashMap<E, P, BuildFx>, bo: HashMap<E, P, BuildFx>, sorts: HashMap<u32, P>, vars: HashMap<u32, P>,
    doms: HashMap<(u32, Set), P>,
    cache: HashMap<(Vec<E>, Vec<(u32, Set)>), Option<Vec<(u32, u8)>>>,
    pub st: Stats,
    pub unknown: u64,
}
pub const FULL: Set = [!0; 4];
#[inline] pub fn has(s: &Set, v: u8) -> bool { s[v as usize / 64] >> (v % 64) & 1 == 1 }
#[inline] pub fn and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
#[inline] pub fn andn(a: &Set, b: &Set) -> Set { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
#[inline] pub fn empty(a: &Set) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn count(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
/// A member, preferring printable letters so that models read well.
pub fn pick(a: &Set) -> u8 {
    for v in (b'a'..=b'z').chain(b'0'..=b'9').chain(b' '..=b'~') { if has(a, v) { return v; } }
    for v in 0..=255u8 { if has(a, v) { return v; } }
    panic!("empty domain")
}
pub fn members(a: &Set) -> Vec<u8> { (0..=255u8).filter(|v| has(a, *v)).collect() }

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 20000);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: Default::default(), bo: Default::default(), sorts: HashMap::new(), vars: HashMap::new(), doms: HashMap::new(), cache: HashMap::new(), st: Stats::default(), unknown: 0 }
        }
    }
    fn sort(&mut self, w: u32) -> P { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) }) }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe { if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) } }
    }
    fn var(&mut self, i: u32) -> P {
        if let Some(p) = self.vars.get(&i) { return *p; }
        let s = self.sort(8);
        let n = CString::new(format!("b{}", i)).unwrap();
        let p = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) };
        self.vars.insert(i, p);
        p
    }
    fn boolean(&mut self, cx: &Cx, e: E) -> P {
        if let Some(p) = self.bo.get(&e) { return *p; }
        let n = cx.nodes[e as usize];
        let c = self.c;
        debug_assert_eq!(n.w, 1);
        let p = unsafe {
            match n.op {
                Op::Const => if cx.as_const(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not => { let a = self.boolean(cx, n.a); Z3_mk_not(c, a) }
                Op::And | Op::Or => { let v = [self.boolean(cx, n.a), self.boolean(cx, n.b)]; if n.op == Op::And { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) } }
                Op::Xor => { let a = self.boolean(cx, n.a); let b = self.boolean(cx, n.b); Z3_mk_xor(c, a, b) }
                Op::Ite => { let a = self.boolean(cx, n.a); let b = self.boolean(cx, n.b); let d = self.boolean(cx, n.c); Z3_mk_ite(c, a, b, d) }
                Op::Eq if cx.w(n.a) == 1 => { let a = self.boolean(cx, n.a); let b = self.boolean(cx, n.b); Z3_mk_eq(c, a, b) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.term(cx, n.a); let b = self.term(cx, n.b);
                    match n.op { Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) }
                }
                _ => { let t = self.term(cx, e); let one = self.num(1, 1); Z3_mk_eq(c, t, one) }
            }
        };
        self.bo.insert(e, p);
        p
    }
    fn term(&mut self, cx: &Cx, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p; }
        let n = cx.nodes[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let boolop = w == 1 && !matches!(n.op, Op::Extract | Op::Tab | Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
        let p = unsafe {
            if boolop {
                let b = self.boolean(cx, e); let o = self.num(1, 1); let z = self.num(1, 0);
                Z3_mk_ite(c, b, o, z)
            } else {
                match n.op {
                    Op::Const => self.num(w, cx.as_const(e).unwrap()),
                    Op::Var => self.var(n.a),
                    Op::Tab => {
                        // nested ite over runs of equal values
                        let t = cx.tables[n.b as usize].clone();
                        let v = self.var(n.a);
                        let mut runs: Vec<(usize, u64)> = vec![];
                        for i in 0..256 { if i == 0 || t[i] != t[i - 1] { runs.push((i, t[i])); } }
                        let mut r = self.num(w, runs[runs.len() - 1].1 as u128);
                        for k in (0..runs.len() - 1).rev() {
                            let bound = self.num(8, runs[k + 1].0 as u128);
                            let lo = self.num(w, runs[k].1 as u128);
                            r = Z3_mk_ite(c, Z3_mk_bvult(c, v, bound), lo, r);
                        }
                        r
                    }
                    Op::Not => { let a = self.term(cx, n.a); Z3_mk_bvnot(c, a) }
                    Op::Concat => { let a = self.term(cx, n.a); let b = self.term(cx, n.b); Z3_mk_concat(c, a, b) }
                    Op::Extract => { let a = self.term(cx, n.a); Z3_mk_extract(c, n.b + w - 1, n.b, a) }
                    Op::ZExt => { let iw = cx.w(n.a); let a = self.term(cx, n.a); Z3_mk_zero_ext(c, w - iw, a) }
                    Op::SExt => { let iw = cx.w(n.a); let a = self.term(cx, n.a); Z3_mk_sign_ext(c, w - iw, a) }
                    Op::Ite => { let b = self.boolean(cx, n.a); let x = self.term(cx, n.b); let y = self.term(cx, n.c); Z3_mk_ite(c, b, x, y) }
                    op => {
                        let a = self.term(cx, n.a); let b = self.term(cx, n.b);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                            _ => unreachable!("{:?}", op),
                        }
                    }
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
    fn dom(&mut self, v: u32, d: &Set) -> P {
        if let Some(p) = self.doms.get(&(v, *d)) { return *p; }
        let x = self.var(v);
        let mut parts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if has(d, i as u8) {
                let st = i;
                while i < 256 && has(d, i as u8) { i += 1; }
                let lo = self.num(8, st as u128); let hi = self.num(8, i as u128 - 1);
                unsafe {
                    let r = if st + 1 == i { Z3_mk_eq(self.c, x, lo) } else { let q = [Z3_mk_bvule(self.c, lo, x), Z3_mk_bvule(self.c, x, hi)]; Z3_mk_and(self.c, 2, q.as_ptr()) };
                    parts.push(r);
                }
            } else { i += 1; }
        }
        let p = unsafe { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) };
        self.doms.insert((v, *d), p);
        p
    }
    /// Satisfiability of a conjunction under domains. None: unsat. Some(model) otherwise.
    pub fn check(&mut self, cx: &Cx, cons: &[E], dom: &dyn Fn(u32) -> Set) -> Option<Vec<(u32, u8)>> {
        let mut k: Vec<E> = cons.to_vec();
        k.sort(); k.dedup();
        let mut sup = 0u128;
        for e in &k { sup |= cx.sup[*e as usize]; }
        let mut ds = vec![];
        for v in 0..128u32 { if sup >> v & 1 == 1 { ds.push((v, dom(v))); } }
        let key = (k, ds);
        if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in &key.1 { if *d != FULL { let p = self.dom(*v, d); Z3_solver_assert(self.c, self.s, p); } }
            for e in &key.0 { let p = self.boolean(cx, *e); Z3_solver_assert(self.c, self.s, p); }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                self.st.z3_sat += 1;
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut v = vec![];
                for (i, _) in &key.1 {
                    let x = self.var(*i);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, x, true, &mut o);
                    let mut n = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut n);
                    v.push((*i, n as u8));
                }
                Z3_model_dec_ref(self.c, m);
                Some(v)
            } else {
                if r == 0 { self.unknown += 1; } else { self.st.z3_unsat += 1; }
                None
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.st.z3_queries += 1;
        self.st.z3_ns += ns;
        self.st.z3_max_ns = self.st.z3_max_ns.max(ns);
        if self.cache.len() > 200_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
}
