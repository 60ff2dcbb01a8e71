//! Minimal binding to libz3's C API and the translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}")
}

pub enum Answer { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<EId, P>,
    bl: HashMap<EId, P>,
    vars: HashMap<u32, P>,
    pub queries: u64,
    pub nanos: u64,
    pub unknowns: u64,
    npush: u64,
    sets: HashMap<(u32, Set), P>,
    pub log: bool,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: HashMap::new(), bl: HashMap::new(), vars: HashMap::new(), queries: 0, nanos: 0, unknowns: 0, npush: 0, sets: HashMap::new(), log: std::env::var("IRSYM_Z3LOG").is_ok() }
        }
    }
    unsafe fn keep(&self, a: P) -> P { Z3_inc_ref(self.c, a); a }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let ty = Z3_mk_bv_sort(self.c, w as c_uint);
        self.keep(Z3_mk_numeral(self.c, s.as_ptr(), ty))
    }
    unsafe fn z3var(&mut self, v: u32) -> P {
        if let Some(a) = self.vars.get(&v) { return *a; }
        let s = CString::new(format!("v{v}")).unwrap();
        let ty = Z3_mk_bv_sort(self.c, var_width(v) as c_uint);
        let a = self.keep(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), ty));
        self.vars.insert(v, a);
        a
    }
    unsafe fn set_bool(&mut self, v: u32, s: &Set) -> P {
        if let Some(a) = self.sets.get(&(v, *s)) { return *a; }
        let r = self.set_bool_new(v, s);
        self.sets.insert((v, *s), r);
        r
    }
    unsafe fn set_bool_new(&mut self, v: u32, s: &Set) -> P {
        let x = self.z3var(v);
        let mut parts: Vec<P> = vec![];
        let mut i = 0;
        while i < 256 {
            if set_has(s, i) {
                let mut j = i;
                while j + 1 < 256 && set_has(s, j + 1) { j += 1; }
                let p = if i == j { let n = self.num(i as u128, 8); self.keep(Z3_mk_eq(self.c, x, n)) }
                else {
                    let lo = self.num(i as u128, 8); let hi = self.num(j as u128, 8);
                    if i == 0 { self.keep(Z3_mk_bvule(self.c, x, hi)) }
                    else if j == 255 { self.keep(Z3_mk_bvule(self.c, lo, x)) }
                    else {
                        let q = [self.keep(Z3_mk_bvule(self.c, lo, x)), self.keep(Z3_mk_bvule(self.c, x, hi))];
                        self.keep(Z3_mk_and(self.c, 2, q.as_ptr()))
                    }
                };
                parts.push(p);
                i = j + 1;
            } else { i += 1; }
        }
        if parts.len() == 1 { parts[0] } else { self.keep(Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())) }
    }
    pub unsafe fn to_bool(&mut self, ex: &Exprs, e: EId) -> P {
        if let Some(a) = self.bl.get(&e) { return *a; }
        let n = ex.node(e);
        let c = self.c;
        let r = match n.op {
            Op::Const => if e == ex.t { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::InSet => { let s = ex.sets[n.b as usize]; self.set_bool(n.a, &s) }
            Op::And => { let q = [self.to_bool(ex, n.a), self.to_bool(ex, n.b)]; Z3_mk_and(c, 2, q.as_ptr()) }
            Op::Or => { let q = [self.to_bool(ex, n.a), self.to_bool(ex, n.b)]; Z3_mk_or(c, 2, q.as_ptr()) }
            Op::Xor if ex.cval(n.b) == Some(1) => { let q = self.to_bool(ex, n.a); Z3_mk_not(c, q) }
            Op::Xor => { let (p, q) = (self.to_bool(ex, n.a), self.to_bool(ex, n.b)); let e = self.keep(Z3_mk_eq(c, p, q)); Z3_mk_not(c, e) }
            Op::Eq => if ex.w(n.a) == 1 { let (p, q) = (self.to_bool(ex, n.a), self.to_bool(ex, n.b)); Z3_mk_eq(c, p, q) }
                else { let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b)); Z3_mk_eq(c, p, q) },
            Op::Ult => { let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b)); Z3_mk_bvult(c, p, q) }
            Op::Ule => { let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b)); Z3_mk_bvule(c, p, q) }
            Op::Slt => { let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b)); Z3_mk_bvslt(c, p, q) }
            Op::Sle => { let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b)); Z3_mk_bvsle(c, p, q) }
            Op::Ite => { let (i, p, q) = (self.to_bool(ex, n.a), self.to_bool(ex, n.b), self.to_bool(ex, n.c)); Z3_mk_ite(c, i, p, q) }
            _ => { let p = self.to_bv(ex, e); let one = self.num(1, 1); Z3_mk_eq(c, p, one) }
        };
        let r = self.keep(r);
        self.bl.insert(e, r);
        r
    }
    unsafe fn to_bv(&mut self, ex: &Exprs, e: EId) -> P {
        if let Some(a) = self.bv.get(&e) { return *a; }
        let n = ex.node(e);
        let c = self.c;
        let r = match n.op {
            Op::Const => self.num(ex.consts[n.a as usize], n.w),
            Op::Var => self.z3var(n.a),
            Op::Tab => {
                let t = ex.tabs[n.b as usize].clone();
                // group by value
                let mut groups: Vec<(u64, Set)> = vec![];
                for i in 0..256 {
                    match groups.iter_mut().find(|g| g.0 == t[i]) {
                        Some(g) => g.1[i >> 6] |= 1 << (i & 63),
                        None => { let mut s = [0u64; 4]; s[i >> 6] |= 1 << (i & 63); groups.push((t[i], s)); }
                    }
                }
                groups.sort_by_key(|g| set_count(&g.1));
                let last = groups.pop().unwrap();
                let mut acc = self.num(last.0 as u128, n.w);
                for (v, s) in groups {
                    let b = self.set_bool(n.a, &s);
                    let x = self.num(v as u128, n.w);
                    acc = self.keep(Z3_mk_ite(c, b, x, acc));
                }
                acc
            }
            Op::InSet | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.to_bool(ex, e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            }
            Op::Extract => { let p = self.to_bv(ex, n.a); Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, p) }
            Op::ZExt => { let p = self.to_bv(ex, n.a); Z3_mk_zero_ext(c, (n.w - ex.w(n.a)) as c_uint, p) }
            Op::SExt => { let p = self.to_bv(ex, n.a); Z3_mk_sign_ext(c, (n.w - ex.w(n.a)) as c_uint, p) }
            Op::Ite => { let i = self.to_bool(ex, n.a); let (p, q) = (self.to_bv(ex, n.b), self.to_bv(ex, n.c)); Z3_mk_ite(c, i, p, q) }
            _ => {
                let (p, q) = (self.to_bv(ex, n.a), self.to_bv(ex, n.b));
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                    Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::URem => Z3_mk_bvurem(c, p, q),
                    Op::SDiv => Z3_mk_bvsdiv(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q),
                    Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                    Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q),
                    Op::Concat => Z3_mk_concat(c, p, q),
                    _ => unreachable!(),
                }
            }
        };
        let r = self.keep(r);
        self.bv.insert(e, r);
        r
    }
    /// Are the constraints (each of width 1) and the variable domains jointly satisfiable?
    pub fn check(&mut self, ex: &Exprs, cons: &[EId], doms: &[(u32, Set)], want: &[u32]) -> Answer {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            self.npush += 1;
            for e in cons { let b = self.to_bool(ex, *e); Z3_solver_assert(self.c, self.s, b); }
            for (v, s) in doms {
                if *s != FULL {
                    let b = if set_empty(s) { self.keep(Z3_mk_false(self.c)) } else { self.set_bool(*v, s) };
                    Z3_solver_assert(self.c, self.s, b);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for v in want {
                        let x = self.z3var(*v);
                        let mut r: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, m, x, true, &mut r) { Z3_inc_ref(self.c, r); Z3_get_numeral_uint64(self.c, r, &mut val); }
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => { self.unknowns += 1; Answer::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.nanos += t0.elapsed().as_nanos() as u64;
            if self.log && t0.elapsed().as_millis() >= 3 { eprintln!("z3 {:?} r={r}: {} doms {:?}", t0.elapsed(), cons.iter().map(|e| ex.show(*e, 6)).collect::<Vec<_>>().join(" && "), doms.len()); }
            ans
        }
    }
}
