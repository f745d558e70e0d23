//! Feasibility queries: slicing, caching and Z3.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub z3_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: Vec<P>,  // translated bit-vector terms
    bo: Vec<P>,  // translated boolean terms (width 1)
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    recent: Vec<Vec<(u32, u128)>>,
    stack: Vec<E>,
    pub st: Stats,
    pub unknown: bool,
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(format!("{}", timeout_ms)).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(ctx, l.as_ptr());
            let s = if std::env::var("VP_SIMPLE").is_ok() { Z3_mk_simple_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, sym) };
            Z3_solver_inc_ref(ctx, s);
            Solver { ctx, s, bv: vec![], bo: vec![], sorts: HashMap::new(), cache: HashMap::new(), recent: vec![], stack: vec![], st: Stats::default(), unknown: false }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if v >> 64 == 0 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn grow(&mut self, p: &Pool) {
        if self.bv.len() < p.n.len() {
            self.bv.resize(p.n.len(), std::ptr::null_mut());
            self.bo.resize(p.n.len(), std::ptr::null_mut());
        }
    }
    fn tb(&mut self, p: &Pool, e: E) -> P {
        let i = e as usize;
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let k = p.key(e);
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                K::Eq => {
                    if p.w(k.a) == 1 {
                        let (a, b) = (self.tb(p, k.a), self.tb(p, k.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.tv(p, k.a), self.tv(p, k.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let (a, b) = (self.tv(p, k.a), self.tv(p, k.b));
                    match k.op {
                        K::Ult => Z3_mk_bvult(c, a, b),
                        K::Ule => Z3_mk_bvule(c, a, b),
                        K::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                K::And | K::Or | K::Xor => {
                    let (a, b) = (self.tb(p, k.a), self.tb(p, k.b));
                    match k.op {
                        K::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        K::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => {
                            if p.as_const(k.b) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                    }
                }
                K::Ite => {
                    let (a, b, d) = (self.tb(p, k.a), self.tb(p, k.b), self.tb(p, k.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let v = self.tv(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.bo[i] = r;
        r
    }
    fn tv(&mut self, p: &Pool, e: E) -> P {
        let i = e as usize;
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let k = p.key(e);
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                K::Const => self.num(k.k, k.w),
                K::Var => {
                    let n = CString::new(format!("v{}_{}", k.k, k.w)).unwrap();
                    let sy = Z3_mk_string_symbol(c, n.as_ptr());
                    let so = self.sort(k.w);
                    Z3_mk_const(c, sy, so)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let b = self.tb(p, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                K::And | K::Or | K::Xor if k.w == 1 => {
                    let b = self.tb(p, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                K::ZExt => {
                    let a = self.tv(p, k.a);
                    Z3_mk_zero_ext(c, k.w - p.w(k.a), a)
                }
                K::SExt => {
                    let a = self.tv(p, k.a);
                    Z3_mk_sign_ext(c, k.w - p.w(k.a), a)
                }
                K::Extract => {
                    let a = self.tv(p, k.a);
                    Z3_mk_extract(c, k.k as u32 + k.w - 1, k.k as u32, a)
                }
                K::Concat => {
                    let (a, b) = (self.tv(p, k.a), self.tv(p, k.b));
                    Z3_mk_concat(c, a, b)
                }
                K::Ite => {
                    let (a, b, d) = (self.tb(p, k.a), self.tv(p, k.b), self.tv(p, k.c));
                    Z3_mk_ite(c, a, b, d)
                }
                op => {
                    let (a, b) = (self.tv(p, k.a), self.tv(p, k.b));
                    match op {
                        K::Add => Z3_mk_bvadd(c, a, b),
                        K::Sub => Z3_mk_bvsub(c, a, b),
                        K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b),
                        K::URem => Z3_mk_bvurem(c, a, b),
                        K::SDiv => Z3_mk_bvsdiv(c, a, b),
                        K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b),
                        K::Or => Z3_mk_bvor(c, a, b),
                        K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b),
                        K::LShr => Z3_mk_bvlshr(c, a, b),
                        K::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[i] = r;
        r
    }

    /// Is pc /\ cond satisfiable?  `vars` gives the width of every variable created on this path.
    pub fn query(&mut self, p: &mut Pool, pc: &[E], cond: E, vars: &[u32]) -> Res {
        self.st.queries += 1;
        match p.as_const(cond) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(vec![]),
            _ => {}
        }
        // slice: constraints transitively sharing variables with cond
        let mut mask = p.mask(cond);
        let mut key: Vec<E> = vec![cond];
        let mut rest: Vec<E> = pc.to_vec();
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                if p.mask(rest[i]) & mask != 0 {
                    mask |= p.mask(rest[i]);
                    key.push(rest[i]);
                    rest.swap_remove(i);
                    changed = true;
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        // models found earlier may already satisfy this query
        for j in (0..self.recent.len()).rev() {
            let mut mv = vec![0u128; vars.len()];
            for (i, v) in &self.recent[j] {
                if (*i as usize) < mv.len() {
                    mv[*i as usize] = *v;
                }
            }
            if key.iter().all(|&e| p.eval(e, &mv) == 1) {
                self.st.model_hits += 1;
                let out: Vec<(u32, u128)> = (0..vars.len() as u32).filter(|i| mask >> (i % 128) & 1 == 1).map(|i| (i, mv[i as usize])).collect();
                self.cache.insert(key, Some(out.clone()));
                return Res::Sat(out);
            }
        }
        self.grow(p);
        let t0 = Instant::now();
        let res = unsafe {
            // keep the solver's assertion stack aligned with the path condition
            let mut common = 0;
            while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
                common += 1;
            }
            if common < self.stack.len() {
                Z3_solver_pop(self.ctx, self.s, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                Z3_solver_push(self.ctx, self.s);
                let b = self.tb(p, e);
                Z3_solver_assert(self.ctx, self.s, b);
                self.stack.push(e);
            }
            Z3_solver_push(self.ctx, self.s);
            let b = self.tb(p, cond);
            Z3_solver_assert(self.ctx, self.s, b);
            let r = Z3_solver_check(self.ctx, self.s);
            if t0.elapsed().as_millis() > 150 {
                if let Ok(d) = std::env::var("VP_DUMP_SLOW") {
                    let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{}/q{}-{}ms.smt2", d, self.st.z3_queries, t0.elapsed().as_millis()), t + "(check-sat)\n");
                }
            }
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for i in 0..vars.len() as u32 {
                        if mask >> (i % 128) & 1 == 0 {
                            continue;
                        }
                        let e = p.var(i, vars[i as usize]);
                        self.grow(p);
                        let a = self.tv(p, e);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                            out.push((i, s.to_str().unwrap().parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.z3_queries += 1;
        self.st.z3_us += us;
        self.st.max_us = self.st.max_us.max(us);
        match &res {
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Sat(m) => {
                self.st.sat += 1;
                if self.recent.len() >= 12 {
                    self.recent.remove(0);
                }
                self.recent.push(m.clone());
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unknown => self.unknown = true,
        }
        res
    }
}
