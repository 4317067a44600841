//! z3 back end (QF_BV) with constraint-independence slicing and caching.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_mk_bv_sort(c: Z, sz: c_uint) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_const(c: Z, s: Z, ty: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, ty: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, ty: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
}

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    c: Z,
    tm: HashMap<T, Z>,
    params: Z,
    logic: Z,
    cache: HashMap<(Vec<T>, Vec<(u32, BitSet)>), Option<Vec<(u32, u8)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            Solver { c, tm: HashMap::new(), params, logic, cache: HashMap::new(), queries: 0, cache_hits: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    fn var(&self, v: u32) -> Z { unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, 8)) } }
    fn inset(&self, v: u32, s: &BitSet) -> Z {
        unsafe {
            let x = self.var(v);
            let mut parts: Vec<Z> = vec![];
            let mut i = 0u32;
            while i < 256 {
                if !bs_has(s, i as u8) { i += 1; continue; }
                let st = i;
                while i < 256 && bs_has(s, i as u8) { i += 1; }
                let en = i - 1;
                if st == en { parts.push(Z3_mk_eq(self.c, x, self.num(st as u128, 8))); }
                else {
                    let lo = Z3_mk_bvule(self.c, self.num(st as u128, 8), x);
                    let hi = Z3_mk_bvule(self.c, x, self.num(en as u128, 8));
                    let a = [lo, hi];
                    parts.push(Z3_mk_and(self.c, 2, a.as_ptr()));
                }
            }
            if parts.is_empty() { return Z3_mk_false(self.c); }
            if parts.len() == 1 { return parts[0]; }
            Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())
        }
    }
    /// width-1 terms are z3 Bools; others bit-vectors
    fn tr(&mut self, cx: &Ctx, t: T) -> Z {
        if let Some(&z) = self.tm.get(&t) { return z; }
        let c = self.c;
        let w = cx.w(t);
        let z = unsafe {
            match cx.nodes[t as usize].clone() {
                Node::Const(v) => if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(v, w) },
                Node::Var(v) => self.var(v),
                Node::Not(a) => { let x = self.tr(cx, a); Z3_mk_not(c, x) }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.tr(cx, a), self.tr(cx, b));
                    if w == 1 {
                        let v = [x, y];
                        match op { Bop::And => Z3_mk_and(c, 2, v.as_ptr()), Bop::Or => Z3_mk_or(c, 2, v.as_ptr()), Bop::Xor => Z3_mk_xor(c, x, y), _ => panic!("width-1 {:?}", op) }
                    } else {
                        match op {
                            Bop::Add => Z3_mk_bvadd(c, x, y), Bop::Sub => Z3_mk_bvsub(c, x, y), Bop::Mul => Z3_mk_bvmul(c, x, y),
                            Bop::UDiv => Z3_mk_bvudiv(c, x, y), Bop::URem => Z3_mk_bvurem(c, x, y), Bop::SDiv => Z3_mk_bvsdiv(c, x, y), Bop::SRem => Z3_mk_bvsrem(c, x, y),
                            Bop::Shl => Z3_mk_bvshl(c, x, y), Bop::LShr => Z3_mk_bvlshr(c, x, y), Bop::AShr => Z3_mk_bvashr(c, x, y),
                            Bop::And => Z3_mk_bvand(c, x, y), Bop::Or => Z3_mk_bvor(c, x, y), Bop::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Node::Cmp(op, a, b) => {
                    let (x, y) = (self.tr(cx, a), self.tr(cx, b));
                    match op { Cop::Eq => Z3_mk_eq(c, x, y), Cop::Ult => Z3_mk_bvult(c, x, y), Cop::Ule => Z3_mk_bvule(c, x, y), Cop::Slt => Z3_mk_bvslt(c, x, y), Cop::Sle => Z3_mk_bvsle(c, x, y) }
                }
                Node::Ite(k, a, b) => { let (k, x, y) = (self.tr(cx, k), self.tr(cx, a), self.tr(cx, b)); Z3_mk_ite(c, k, x, y) }
                Node::Concat(a, b) => { let (x, y) = (self.trbv(cx, a), self.trbv(cx, b)); Z3_mk_concat(c, x, y) }
                Node::Extract(a, lo) => {
                    let x = self.trbv(cx, a);
                    let e = Z3_mk_extract(c, lo + w - 1, lo, x);
                    if w == 1 { Z3_mk_eq(c, e, self.num(1, 1)) } else { e }
                }
                Node::Sext(a) => { let x = self.trbv(cx, a); Z3_mk_sign_ext(c, w - cx.w(a), x) }
                Node::Tab(v, id) => {
                    let tab = cx.tables[id as usize].clone();
                    // group by value
                    let mut groups: HashMap<u128, BitSet> = HashMap::new();
                    for i in 0..256usize { groups.entry(tab[i]).or_insert([0; 4])[i >> 6] |= 1 << (i & 63); }
                    let mut g: Vec<_> = groups.into_iter().collect();
                    g.sort_by_key(|(k, s)| (std::cmp::Reverse(bs_count(s)), *k));
                    let mut acc = self.num(g[0].0, w);
                    for (k, s) in &g[1..] { let cnd = self.inset(v, s); acc = Z3_mk_ite(c, cnd, self.num(*k, w), acc); }
                    acc
                }
                Node::InSet(v, id) => { let s = cx.bitsets[id as usize]; self.inset(v, &s) }
            }
        };
        self.tm.insert(t, z);
        z
    }
    fn trbv(&mut self, cx: &Ctx, t: T) -> Z {
        let z = self.tr(cx, t);
        if cx.w(t) == 1 { unsafe { Z3_mk_ite(self.c, z, self.num(1, 1), self.num(0, 1)) } } else { z }
    }
    /// the whole path condition, unsliced: Some(satisfiable)
    pub fn path_condition(&mut self, cx: &Ctx, dom: &[BitSet], multi: &[T]) -> Option<bool> {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for &t in multi { let z = self.tr(cx, t); Z3_solver_assert(self.c, s, z); }
            for (v, d) in dom.iter().enumerate() { if *d != BS_FULL { let z = self.inset(v as u32, d); Z3_solver_assert(self.c, s, z); } }
            let r = Z3_solver_check(self.c, s);
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match r { 1 => Some(true), -1 => Some(false), _ => None }
    }
    /// Is `multi ∧ dom ∧ cond` satisfiable? `multi`/`dom` are known satisfiable on their own,
    /// so only the constraints connected to `cond` matter.
    pub fn check(&mut self, cx: &mut Ctx, dom: &[BitSet], multi: &[T], cond: T) -> Res {
        if let Some(k) = cx.as_const(cond) { return if k == 1 { Res::Sat(vec![]) } else { Res::Unsat }; }
        let mut vars: HashSet<u32> = cx.vars(cond).iter().cloned().collect();
        let mut used = vec![false; multi.len()];
        loop {
            let mut ch = false;
            for (i, &m) in multi.iter().enumerate() {
                if used[i] { continue; }
                let vs = cx.vars(m);
                if vs.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; for v in vs.iter() { vars.insert(*v); } }
            }
            if !ch { break; }
        }
        let mut cs: Vec<T> = multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, t)| *t).collect();
        cs.push(cond);
        cs.sort(); cs.dedup();
        let mut vd: Vec<(u32, BitSet)> = vars.iter().map(|v| (*v, dom[*v as usize])).collect();
        vd.sort();
        let key = (cs, vd);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for &t in &key.0 { let z = self.tr(cx, t); Z3_solver_assert(self.c, s, z); }
            for (v, d) in &key.1 { if *d != BS_FULL { let z = self.inset(*v, d); Z3_solver_assert(self.c, s, z); } }
            let r = match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _) in &key.1 {
                        let mut z: Z = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(self.c, m, self.var(*v), true, &mut z) || !Z3_get_numeral_uint64(self.c, z, &mut u) { panic!("model eval"); }
                        out.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match &r { Res::Sat(m) => { self.cache.insert(key, Some(m.clone())); } Res::Unsat => { self.cache.insert(key, None); } _ => {} }
        r
    }
}
