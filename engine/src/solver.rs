//! z3 in process, through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}

extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(70);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub short: u64,
    pub cached: u64,
    pub time: f64,
}

/// Time limit of the first (incremental) attempt at a query.
const SHORT_MS: u32 = 40;

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    vars: HashMap<u32, P>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Res>,
    pub stats: Stats,
    long: P,
    pub dump: Option<std::cell::RefCell<std::fs::File>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as _);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, k, SHORT_MS);
            Z3_solver_set_params(c, s, p);
            let long = Z3_mk_params(c);
            Z3_params_inc_ref(c, long);
            Z3_params_set_uint(c, long, k, timeout_ms);
            Solver {
                c,
                s,
                bv: HashMap::new(),
                bo: HashMap::new(),
                vars: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                long,
                dump: None,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn var(&mut self, v: u32, w: u32) -> P {
        if let Some(&p) = self.vars.get(&v) {
            return p;
        }
        let so = self.sort(w);
        unsafe {
            let sym = Z3_mk_int_symbol(self.c, v as c_int);
            let p = Z3_mk_const(self.c, sym, so);
            Z3_inc_ref(self.c, p);
            self.vars.insert(v, p);
            p
        }
    }
    fn to_bv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let w = x.w(e);
        let c = self.c;
        let p = unsafe {
            match x.node(e) {
                Node::Const(k) => {
                    let so = self.sort(w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, k as u64, so)
                    } else {
                        let s = format!("{}\0", k);
                        Z3_mk_numeral(c, s.as_ptr() as _, so)
                    }
                }
                Node::Var(v) => self.var(v, w),
                Node::Cmp(..) => self.bool_bv(x, e),
                Node::Bin(op, a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    let f = match op {
                        Bop::Add => Z3_mk_bvadd,
                        Bop::Sub => Z3_mk_bvsub,
                        Bop::Mul => Z3_mk_bvmul,
                        Bop::UDiv => Z3_mk_bvudiv,
                        Bop::URem => Z3_mk_bvurem,
                        Bop::SDiv => Z3_mk_bvsdiv,
                        Bop::SRem => Z3_mk_bvsrem,
                        Bop::And => Z3_mk_bvand,
                        Bop::Or => Z3_mk_bvor,
                        Bop::Xor => Z3_mk_bvxor,
                        Bop::Shl => Z3_mk_bvshl,
                        Bop::LShr => Z3_mk_bvlshr,
                        Bop::AShr => Z3_mk_bvashr,
                    };
                    f(c, p, q)
                }
                Node::Zext(a) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_zero_ext(c, w - x.w(a), p)
                }
                Node::Sext(a) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_sign_ext(c, w - x.w(a), p)
                }
                Node::Extract(a, lo) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p)
                }
                Node::Concat(a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_concat(c, p, q)
                }
                Node::Ite(k, a, b) => {
                    let k = self.to_bool(x, k);
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_ite(c, k, p, q)
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bv.insert(e, p);
        p
    }
    fn bool_bv(&mut self, x: &Ctx, e: E) -> P {
        let b = self.to_bool(x, e);
        let so = self.sort(1);
        unsafe {
            let one = Z3_mk_unsigned_int64(self.c, 1, so);
            Z3_inc_ref(self.c, one);
            let zero = Z3_mk_unsigned_int64(self.c, 0, so);
            Z3_inc_ref(self.c, zero);
            Z3_mk_ite(self.c, b, one, zero)
        }
    }
    fn to_bool(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let c = self.c;
        let p = unsafe {
            match x.node(e) {
                Node::Const(k) => {
                    if k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Cmp(pr, a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    match pr {
                        Pred::Eq => Z3_mk_eq(c, p, q),
                        Pred::Ult => Z3_mk_bvult(c, p, q),
                        Pred::Ule => Z3_mk_bvule(c, p, q),
                        Pred::Slt => Z3_mk_bvslt(c, p, q),
                        Pred::Sle => Z3_mk_bvsle(c, p, q),
                    }
                }
                Node::Bin(Bop::And, a, b) => {
                    let v = [self.to_bool(x, a), self.to_bool(x, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(Bop::Or, a, b) => {
                    let v = [self.to_bool(x, a), self.to_bool(x, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Bin(Bop::Xor, a, b) => {
                    let p = self.to_bool(x, a);
                    if x.cv(b) == Some(1) {
                        Z3_mk_not(c, p)
                    } else {
                        let q = self.to_bool(x, b);
                        Z3_mk_xor(c, p, q)
                    }
                }
                Node::Ite(k, a, b) => {
                    let k = self.to_bool(x, k);
                    let p = self.to_bool(x, a);
                    let q = self.to_bool(x, b);
                    Z3_mk_ite(c, k, p, q)
                }
                _ => {
                    let p = self.to_bv(x, e);
                    let so = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, so);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bo.insert(e, p);
        p
    }

    /// Decides the conjunction of `cs`; a model covers the variables in `cs`.
    pub fn check(&mut self, x: &Ctx, cs: &[E]) -> Res {
        self.check_with(x, cs, true)
    }
    /// As `check`, but gives up early.
    pub fn check_short(&mut self, x: &Ctx, cs: &[E]) -> Res {
        self.check_with(x, cs, false)
    }
    unsafe fn result(&mut self, x: &Ctx, s: P, k: c_int, vs: &[u32]) -> Res {
        match k {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for v in vs {
                    let t = self.var(*v, x.var_w[v] as u32);
                    let mut val: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, t, true, &mut val) {
                        Z3_inc_ref(self.c, val);
                        if !Z3_get_numeral_uint64(self.c, val, &mut u) {
                            eprintln!("z3: model value is not a numeral");
                            std::process::exit(70);
                        }
                    }
                    out.push((*v, u));
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(out)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
    fn check_with(&mut self, x: &Ctx, cs: &[E], hard: bool) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return r.clone();
        }
        let t = Instant::now();
        let bs: Vec<P> = key.iter().map(|&e| self.to_bool(x, e)).collect();
        let mut vs: Vec<u32> = vec![];
        for &e in &key {
            vs.extend_from_slice(x.vars(e));
        }
        vs.sort();
        vs.dedup();
        if let Some(f) = &self.dump {
            use std::io::Write;
            let _ = writeln!(f.borrow_mut(), "{}", smt2(x, &key));
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for b in &bs {
                Z3_solver_assert(self.c, self.s, *b);
            }
            let k = Z3_solver_check(self.c, self.s);
            let mut r = self.result(x, self.s, k, &vs);
            Z3_solver_pop(self.c, self.s, 1);
            if r == Res::Unknown && hard {
                let l = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr() as _);
                let s = Z3_mk_solver_for_logic(self.c, l);
                Z3_solver_inc_ref(self.c, s);
                Z3_solver_set_params(self.c, s, self.long);
                for b in &bs {
                    Z3_solver_assert(self.c, s, *b);
                }
                let k = Z3_solver_check(self.c, s);
                r = self.result(x, s, k, &vs);
                Z3_solver_dec_ref(self.c, s);
            }
            r
        };
        self.stats.queries += 1;
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown if hard => self.stats.unknown += 1,
            Res::Unknown => self.stats.short += 1,
        }
        self.stats.time += t.elapsed().as_secs_f64();
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        if hard || r != Res::Unknown {
            self.cache.insert(key, r.clone());
        }
        r
    }
}

/// The conjunction as an SMT-LIB 2 script (for a second solver).
pub fn smt2(x: &Ctx, cs: &[E]) -> String {
    let mut out = String::from("(set-logic QF_BV)\n");
    let mut vs: Vec<u32> = cs.iter().flat_map(|&e| x.vars(e).to_vec()).collect();
    vs.sort();
    vs.dedup();
    for v in vs {
        out += &format!("(declare-const v{} (_ BitVec {}))\n", v, x.var_w[&v]);
    }
    let mut done: HashMap<E, ()> = HashMap::new();
    fn go(x: &Ctx, e: E, out: &mut String, done: &mut HashMap<E, ()>) -> String {
        let w = x.w(e);
        match x.node(e) {
            Node::Const(k) => return format!("(_ bv{} {})", k, w),
            Node::Var(v) => return format!("v{}", v),
            _ => {}
        }
        let name = format!("e{}", e);
        if done.contains_key(&e) {
            return name;
        }
        let body = match x.node(e) {
            Node::Bin(op, a, b) => {
                let p = go(x, a, out, done);
                let q = go(x, b, out, done);
                let f = match op {
                    Bop::Add => "bvadd",
                    Bop::Sub => "bvsub",
                    Bop::Mul => "bvmul",
                    Bop::UDiv => "bvudiv",
                    Bop::URem => "bvurem",
                    Bop::SDiv => "bvsdiv",
                    Bop::SRem => "bvsrem",
                    Bop::And => "bvand",
                    Bop::Or => "bvor",
                    Bop::Xor => "bvxor",
                    Bop::Shl => "bvshl",
                    Bop::LShr => "bvlshr",
                    Bop::AShr => "bvashr",
                };
                format!("({} {} {})", f, p, q)
            }
            Node::Cmp(pr, a, b) => {
                let p = go(x, a, out, done);
                let q = go(x, b, out, done);
                let f = match pr {
                    Pred::Eq => "=",
                    Pred::Ult => "bvult",
                    Pred::Ule => "bvule",
                    Pred::Slt => "bvslt",
                    Pred::Sle => "bvsle",
                };
                format!("(ite ({} {} {}) #b1 #b0)", f, p, q)
            }
            Node::Zext(a) => format!("((_ zero_extend {}) {})", w - x.w(a), go(x, a, out, done)),
            Node::Sext(a) => format!("((_ sign_extend {}) {})", w - x.w(a), go(x, a, out, done)),
            Node::Extract(a, lo) => {
                format!("((_ extract {} {}) {})", lo as u32 + w - 1, lo, go(x, a, out, done))
            }
            Node::Concat(a, b) => {
                let p = go(x, a, out, done);
                let q = go(x, b, out, done);
                format!("(concat {} {})", p, q)
            }
            Node::Ite(k, a, b) => {
                let k = go(x, k, out, done);
                let p = go(x, a, out, done);
                let q = go(x, b, out, done);
                format!("(ite (= {} #b1) {} {})", k, p, q)
            }
            _ => unreachable!(),
        };
        done.insert(e, ());
        *out += &format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, body);
        name
    }
    for &e in cs {
        let n = go(x, e, &mut out, &mut done);
        out += &format!("(assert (= {} #b1))\n", n);
    }
    out += "(check-sat)\n(reset)\n";
    out
}
