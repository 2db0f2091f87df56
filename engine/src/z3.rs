//! Minimal FFI to libz3 and the translation of expression DAGs.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(2);
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,   // bit-vector translation
    bast: Vec<P>,  // boolean translation (width 1)
    sorts: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
}

#[derive(Debug)]
pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            Z3_del_config(cfg);
            let sym = Z3_mk_string_symbol(c, c"QF_BV".as_ptr());
            let s = Z3_mk_solver_for_logic(c, sym);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"timeout".as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c, s,
                ast: vec![],
                bast: vec![],
                sorts: vec![std::ptr::null_mut(); 260],
                queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0,
                dump: None,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if self.sorts[w as usize].is_null() {
            self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w) };
        }
        self.sorts[w as usize]
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let t = self.sort(w);
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), t) }
    }
    fn slot(v: &mut Vec<P>, i: usize) -> &mut P {
        if v.len() <= i {
            v.resize(i + 1024, std::ptr::null_mut());
        }
        &mut v[i]
    }
    /// boolean translation of a width-1 node
    pub fn b(&mut self, x: &Ctx, e: E) -> P {
        let i = e as usize;
        let got = *Self::slot(&mut self.bast, i);
        if !got.is_null() {
            return got;
        }
        let n = x.nodes[i];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.imm == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    let (p, q) = if x.w(n.a) == 1 { (self.b(x, n.a), self.b(x, n.b)) } else { (self.v(x, n.a), self.v(x, n.b)) };
                    Z3_mk_eq(c, p, q)
                }
                Op::Ult => {
                    let (p, q) = (self.v(x, n.a), self.v(x, n.b));
                    Z3_mk_bvult(c, p, q)
                }
                Op::Slt => {
                    let (p, q) = (self.v(x, n.a), self.v(x, n.b));
                    Z3_mk_bvslt(c, p, q)
                }
                Op::And => {
                    let l = [self.b(x, n.a), self.b(x, n.b)];
                    Z3_mk_and(c, 2, l.as_ptr())
                }
                Op::Or => {
                    let l = [self.b(x, n.a), self.b(x, n.b)];
                    Z3_mk_or(c, 2, l.as_ptr())
                }
                Op::Xor => {
                    let (p, q) = (self.b(x, n.a), self.b(x, n.b));
                    let eq = Z3_mk_eq(c, p, q);
                    Z3_mk_not(c, eq)
                }
                Op::Ite => {
                    let (p, q, r) = (self.b(x, n.a), self.b(x, n.b), self.b(x, n.c));
                    Z3_mk_ite(c, p, q, r)
                }
                Op::Tab => {
                    let t = x.tables[n.imm as usize].clone();
                    let mut s = [0u64; 4];
                    for k in 0..256 {
                        if t[k] == 1 {
                            s[k >> 6] |= 1 << (k & 63);
                        }
                    }
                    let var = x.n(n.a).imm as u16;
                    self.set_member(x, var, &s)
                }
                _ => {
                    let v = self.v(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        *Self::slot(&mut self.bast, i) = r;
        r
    }
    fn varast(&mut self, i: u16) -> P {
        let nm = CString::new(format!("b{}", i)).unwrap();
        let t = self.sort(8);
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), t) }
    }
    /// var ∈ set, as a disjunction of ranges
    pub fn set_member(&mut self, _x: &Ctx, var: u16, s: &Set) -> P {
        let v = self.varast(var);
        let mut ors = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if set_has(s, i as u8) {
                    let st = i;
                    while i < 256 && set_has(s, i as u8) {
                        i += 1;
                    }
                    let en = i - 1;
                    let lo = self.num(8, st as u128);
                    let hi = self.num(8, en as u128);
                    if st == en {
                        ors.push(Z3_mk_eq(self.c, v, lo));
                    } else {
                        let l = [Z3_mk_bvule(self.c, lo, v), Z3_mk_bvule(self.c, v, hi)];
                        ors.push(Z3_mk_and(self.c, 2, l.as_ptr()));
                    }
                } else {
                    i += 1;
                }
            }
            Z3_mk_or(self.c, ors.len() as c_uint, ors.as_ptr())
        }
    }
    /// bit-vector translation
    pub fn v(&mut self, x: &Ctx, e: E) -> P {
        let i = e as usize;
        let got = *Self::slot(&mut self.ast, i);
        if !got.is_null() {
            return got;
        }
        let n = x.nodes[i];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.imm),
                Op::Var => self.varast(n.imm as u16),
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.b(x, e);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Ite => {
                    let p = self.b(x, n.a);
                    let (q, r) = (self.v(x, n.b), self.v(x, n.c));
                    Z3_mk_ite(c, p, q, r)
                }
                Op::ZExt => {
                    let p = self.v(x, n.a);
                    Z3_mk_zero_ext(c, n.w - x.w(n.a), p)
                }
                Op::SExt => {
                    let p = self.v(x, n.a);
                    Z3_mk_sign_ext(c, n.w - x.w(n.a), p)
                }
                Op::Extract => {
                    let p = self.v(x, n.a);
                    Z3_mk_extract(c, n.imm as c_uint + n.w - 1, n.imm as c_uint, p)
                }
                Op::Tab => {
                    let t = x.tables[n.imm as usize].clone();
                    let var = x.n(n.a).imm as u16;
                    // group by value
                    let mut groups: std::collections::BTreeMap<u128, Set> = Default::default();
                    for k in 0..256usize {
                        let s = groups.entry(t[k]).or_insert([0; 4]);
                        s[k >> 6] |= 1 << (k & 63);
                    }
                    let mut it = groups.into_iter();
                    let (v0, _) = it.next().unwrap();
                    let mut acc = self.num(n.w, v0);
                    for (val, set) in it {
                        let cnd = self.set_member(x, var, &set);
                        let k = self.num(n.w, val);
                        acc = Z3_mk_ite(c, cnd, k, acc);
                    }
                    acc
                }
                _ => {
                    let p = self.v(x, n.a);
                    let q = self.v(x, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Concat => Z3_mk_concat(c, p, q),
                        _ => unreachable!(),
                    }
                }
            }
        };
        *Self::slot(&mut self.ast, i) = r;
        r
    }
    /// satisfiability of ∧cons ∧ var∈dom; model over `vars`
    pub fn check(&mut self, x: &Ctx, cons: &[E], doms: &[(u16, Set)], vars: &[u16]) -> Res {
        let t0 = std::time::Instant::now();
        unsafe {
            Z3_solver_reset(self.c, self.s);
            for (v, s) in doms {
                if *s != FULL {
                    let a = self.set_member(x, *v, s);
                    Z3_solver_assert(self.c, self.s, a);
                }
            }
            for e in cons {
                let a = self.b(x, *e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut o = vec![];
                    for v in vars {
                        let a = self.varast(*v);
                        let mut val: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, a, true, &mut val);
                        let mut u = 0u64;
                        if ok {
                            Z3_get_numeral_uint64(self.c, val, &mut u);
                        }
                        o.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(o)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            let d = t0.elapsed().as_secs_f64();
            if d > self.max_time {
                self.max_time = d;
            }
            self.time += d;
            if let Some(p) = &self.dump {
                // every Nth query is written as SMT-LIB for a second solver
                if self.queries % 97 == 1 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                    let exp = match out {
                        Res::Sat(_) => "sat",
                        Res::Unsat => "unsat",
                        _ => "unknown",
                    };
                    let f = format!("{}/q{:06}.smt2", p, self.queries);
                    let _ = std::fs::write(f, format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", exp, s));
                }
            }
            out
        }
    }
}
