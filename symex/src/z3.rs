//! Minimal Z3 C API binding and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
}

extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("z3 error {e}");
    std::process::exit(91);
}

pub struct Z3 {
    c: P,
    solver: P,
    ast: Vec<P>,
    sel: HashMap<E, P>,
    nsel: usize,
    bv: HashMap<u32, P>,
    boolean: P,
    isolver: P,
    iast: HashMap<E, P>,
    /// expressions with no linear integer form
    inot: std::collections::HashSet<E>,
    iok: HashMap<E, bool>,
    pub int_queries: u64,
    pub queries: u64,
    pub time: std::time::Duration,
    pub rlimit: u32,
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let boolean = Z3_mk_bool_sort(c);
            Z3_inc_ref(c, boolean);
            let mut z = Z3 {
                c,
                solver: std::ptr::null_mut(),
                ast: vec![],
                sel: HashMap::new(),
                nsel: 0,
                bv: HashMap::new(),
                boolean,
                isolver: std::ptr::null_mut(),
                iast: HashMap::new(),
                inot: Default::default(),
                iok: HashMap::new(),
                int_queries: 0,
                queries: 0,
                time: Default::default(),
                rlimit,
            };
            z.reset_solver();
            z
        }
    }
    fn reset_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.c, self.solver);
            }
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.solver = if std::env::var("SYMEX_SMT").map_or(false, |v| v == "1") {
                Z3_mk_simple_solver(self.c)
            } else {
                Z3_mk_solver_for_logic(self.c, ls)
            };
            Z3_solver_inc_ref(self.c, self.solver);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, ks, self.rlimit);
            Z3_solver_set_params(self.c, self.solver, p);
            self.sel.clear();
            self.nsel = 0;
        }
    }
    pub fn reset_context(&mut self) {
        let (q, t, r) = (self.queries, self.time, self.rlimit);
        unsafe {
            Z3_solver_dec_ref(self.c, self.solver);
            Z3_del_context(self.c);
        }
        let n = Z3::new(r);
        *self = n;
        self.queries = q;
        self.time = t;
    }
    fn bvs(&mut self, w: u32) -> P {
        let c = self.c;
        *self.bv.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn fps(&mut self, w: u32) -> P {
        unsafe { if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) } }
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.bvs(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    /// width 1 expressions become Bool, others BitVec
    pub fn tr(&mut self, x: &Ctx, e: E) -> P {
        if self.ast.len() < x.x.len() {
            self.ast.resize(x.x.len() + 1024, std::ptr::null_mut());
        }
        let r = self.ast[e as usize];
        if !r.is_null() {
            return r;
        }
        let w = x.w(e);
        let c = self.c;
        macro_rules! b {
            ($f:ident, $a:expr, $b:expr) => {{
                let p = self.tr(x, $a);
                let q = self.tr(x, $b);
                unsafe { $f(c, p, q) }
            }};
        }
        let r = match x.n(e) {
            N::None => panic!(),
            N::Const(v) => unsafe {
                if w == 1 {
                    if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                } else {
                    self.num(v, w)
                }
            },
            N::Var(i) => unsafe {
                let s = if w == 1 { self.boolean } else { self.bvs(w) };
                let sy = Z3_mk_int_symbol(c, i as c_int);
                Z3_mk_const(c, sy, s)
            },
            N::Add(p, q) => b!(Z3_mk_bvadd, p, q),
            N::Sub(p, q) => b!(Z3_mk_bvsub, p, q),
            N::Mul(p, q) => b!(Z3_mk_bvmul, p, q),
            N::UDiv(p, q) => b!(Z3_mk_bvudiv, p, q),
            N::SDiv(p, q) => b!(Z3_mk_bvsdiv, p, q),
            N::URem(p, q) => b!(Z3_mk_bvurem, p, q),
            N::SRem(p, q) => b!(Z3_mk_bvsrem, p, q),
            N::Shl(p, q) => b!(Z3_mk_bvshl, p, q),
            N::LShr(p, q) => b!(Z3_mk_bvlshr, p, q),
            N::AShr(p, q) => b!(Z3_mk_bvashr, p, q),
            N::And(p, q) if w == 1 => {
                let a = [self.tr(x, p), self.tr(x, q)];
                unsafe { Z3_mk_and(c, 2, a.as_ptr()) }
            }
            N::Or(p, q) if w == 1 => {
                let a = [self.tr(x, p), self.tr(x, q)];
                unsafe { Z3_mk_or(c, 2, a.as_ptr()) }
            }
            N::Xor(p, q) if w == 1 => b!(Z3_mk_xor, p, q),
            N::And(p, q) => b!(Z3_mk_bvand, p, q),
            N::Or(p, q) => b!(Z3_mk_bvor, p, q),
            N::Xor(p, q) => b!(Z3_mk_bvxor, p, q),
            N::Not(p) => {
                let a = self.tr(x, p);
                unsafe { if w == 1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
            }
            N::Extract(p, lo) => {
                let a = self.tr(x, p);
                unsafe {
                    let r = Z3_mk_extract(c, lo + w - 1, lo, a);
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
            }
            N::Concat(p, q) => {
                let a = self.bvof(x, p);
                let d = self.bvof(x, q);
                unsafe { Z3_mk_concat(c, a, d) }
            }
            N::SExt(p) => {
                let a = self.bvof(x, p);
                unsafe { Z3_mk_sign_ext(c, w - x.w(p), a) }
            }
            N::Ite(k, p, q) => {
                let a = self.tr(x, k);
                let d = self.tr(x, p);
                let f = self.tr(x, q);
                unsafe { Z3_mk_ite(c, a, d, f) }
            }
            N::Eq(p, q) => b!(Z3_mk_eq, p, q),
            N::Ult(p, q) => self.cmp(x, p, q, Z3_mk_bvult),
            N::Ule(p, q) => self.cmp(x, p, q, Z3_mk_bvule),
            N::Slt(p, q) => self.cmp(x, p, q, Z3_mk_bvslt),
            N::Sle(p, q) => self.cmp(x, p, q, Z3_mk_bvsle),
            N::Fp(op, p, q) => {
                let pa = self.tr(x, p);
                let pb = self.tr(x, q);
                let aw = x.w(p);
                unsafe {
                    let rne = Z3_mk_fpa_rne(c);
                    match op {
                        FpOp::Add | FpOp::Sub | FpOp::Mul | FpOp::Div | FpOp::Rem => {
                            let s = self.fps(w);
                            let a = Z3_mk_fpa_to_fp_bv(c, pa, s);
                            let d = Z3_mk_fpa_to_fp_bv(c, pb, s);
                            let r = match op {
                                FpOp::Add => Z3_mk_fpa_add(c, rne, a, d),
                                FpOp::Sub => Z3_mk_fpa_sub(c, rne, a, d),
                                FpOp::Mul => Z3_mk_fpa_mul(c, rne, a, d),
                                FpOp::Div => Z3_mk_fpa_div(c, rne, a, d),
                                _ => {
                                    eprintln!("symbolic float remainder");
                                    std::process::exit(92)
                                }
                            };
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        FpOp::FromU => {
                            let s = self.fps(w);
                            let r = Z3_mk_fpa_to_fp_unsigned(c, rne, pa, s);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        FpOp::FromS => {
                            let s = self.fps(w);
                            let r = Z3_mk_fpa_to_fp_signed(c, rne, pa, s);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        FpOp::ToU => {
                            let s = self.fps(aw);
                            let a = Z3_mk_fpa_to_fp_bv(c, pa, s);
                            Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w)
                        }
                        FpOp::ToS => {
                            let s = self.fps(aw);
                            let a = Z3_mk_fpa_to_fp_bv(c, pa, s);
                            Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w)
                        }
                        FpOp::Trunc | FpOp::Floor | FpOp::Ceil | FpOp::Rint | FpOp::Round => {
                            let s = self.fps(aw);
                            let a = Z3_mk_fpa_to_fp_bv(c, pa, s);
                            let m = match op {
                                FpOp::Trunc => Z3_mk_fpa_rtz(c),
                                FpOp::Floor => Z3_mk_fpa_rtn(c),
                                FpOp::Ceil => Z3_mk_fpa_rtp(c),
                                FpOp::Rint => rne,
                                _ => Z3_mk_fpa_rna(c),
                            };
                            let r = Z3_mk_fpa_round_to_integral(c, m, a);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        FpOp::Cvt => {
                            let s = self.fps(aw);
                            let a = Z3_mk_fpa_to_fp_bv(c, pa, s);
                            let t = self.fps(w);
                            let r = Z3_mk_fpa_to_fp_float(c, rne, a, t);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.ast[e as usize] = r;
        r
    }
    fn bvof(&mut self, x: &Ctx, e: E) -> P {
        let a = self.tr(x, e);
        if x.w(e) == 1 {
            let o = self.num(1, 1);
            let z = self.num(0, 1);
            unsafe { Z3_mk_ite(self.c, a, o, z) }
        } else {
            a
        }
    }
    fn cmp(&mut self, x: &Ctx, p: E, q: E, f: unsafe extern "C" fn(P, P, P) -> P) -> P {
        let a = self.bvof(x, p);
        let b = self.bvof(x, q);
        unsafe { f(self.c, a, b) }
    }
    fn selector(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.sel.get(&e) {
            return *p;
        }
        let a = self.tr(x, e);
        unsafe {
            let sy = Z3_mk_int_symbol(self.c, 1_000_000 + e as c_int);
            let s = Z3_mk_const(self.c, sy, self.boolean);
            Z3_inc_ref(self.c, s);
            let imp = Z3_mk_implies(self.c, s, a);
            Z3_solver_assert(self.c, self.solver, imp);
            self.sel.insert(e, s);
            self.nsel += 1;
            s
        }
    }
    /// does the expression have a linear integer form, and does it contain wide arithmetic worth it (second)?
    fn linear(&mut self, x: &Ctx, e: E) -> Option<bool> {
        if let Some(r) = self.iok.get(&e) {
            return Some(*r);
        }
        if self.inot.contains(&e) {
            return None;
        }
        let r = self.linear1(x, e);
        match r {
            Some(b) => {
                self.iok.insert(e, b);
            }
            None => {
                self.inot.insert(e);
            }
        }
        r
    }
    fn linear1(&mut self, x: &Ctx, e: E) -> Option<bool> {
        let w = x.w(e);
        let konst = |e: E| matches!(x.n(e), N::Const(_));
        Some(match x.n(e) {
            N::Const(_) | N::Var(_) => false,
            N::Add(p, q) | N::Sub(p, q) if w > 1 => {
                let wide = w >= 24 && x.x[e as usize].hi >= 1 << 20;
                self.linear(x, p)? | self.linear(x, q)? | wide
            }
            N::Mul(p, q) if w > 1 && (konst(p) || konst(q)) => {
                self.linear(x, p)? | self.linear(x, q)? | (w >= 24)
            }
            N::UDiv(p, q) | N::URem(p, q) if w > 1 && konst(q) && x.x[q as usize].lo > 0 => self.linear(x, p)? | (w >= 24),
            N::Ite(c, p, q) => self.linear(x, c)? | self.linear(x, p)? | self.linear(x, q)?,
            N::Concat(p, q) => {
                if !matches!(x.n(p), N::Const(0)) {
                    if x.w(q) > 127 {
                        return None;
                    }
                    self.linear(x, p)? | self.linear(x, q)?
                } else {
                    self.linear(x, q)?
                }
            }
            N::Extract(p, _) if x.w(p) > 1 => self.linear(x, p)?,
            N::SExt(p) if x.w(p) == 1 => self.linear(x, p)?,
            N::And(p, q) | N::Or(p, q) | N::Xor(p, q) if w == 1 => self.linear(x, p)? | self.linear(x, q)?,
            N::Not(p) if w == 1 => self.linear(x, p)?,
            N::Eq(p, q) => self.linear(x, p)? | self.linear(x, q)?,
            N::Ult(p, q) | N::Ule(p, q) => {
                let wide = x.w(p) >= 24 && !konst(p) && !konst(q) && x.x[p as usize].hi.max(x.x[q as usize].hi) >= 1 << 20;
                self.linear(x, p)? | self.linear(x, q)? | wide
            }
            N::Slt(p, q) | N::Sle(p, q) => {
                let h = 1u128 << (x.w(p) - 1);
                let wide = x.w(p) >= 24 && (x.x[p as usize].hi >= h || x.x[q as usize].hi >= h);
                self.linear(x, p)? | self.linear(x, q)? | wide
            }
            _ => return None,
        })
    }
    fn inum(&mut self, v: &str) -> P {
        let t = CString::new(v).unwrap();
        unsafe { Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c)) }
    }
    fn pow2(&mut self, w: u32) -> P {
        if w < 128 {
            self.inum(&(1u128 << w).to_string())
        } else {
            self.inum("340282366920938463463374607431768211456")
        }
    }
    /// linear integer form: width 1 Bool, others Int in 0..2^w
    fn itr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.iast.get(&e) {
            return *p;
        }
        let w = x.w(e);
        let c = self.c;
        let r = match x.n(e) {
            N::Const(v) => unsafe {
                if w == 1 {
                    if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                } else {
                    self.inum(&v.to_string())
                }
            },
            N::Var(i) => unsafe {
                if w == 1 {
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.boolean)
                } else {
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_int_sort(c))
                }
            },
            N::Add(p, q) => {
                // modular sum; a constant in the upper half is a subtraction
                let half = 1u128 << (w - 1);
                let (p, q) = if matches!(x.n(p), N::Const(_)) { (q, p) } else { (p, q) };
                let a = self.itr(x, p);
                let m = self.pow2(w);
                let zero = self.inum("0");
                match x.n(q) {
                    N::Const(k) if k >= half => {
                        let mag = if w < 128 { (1u128 << w) - k } else { k.wrapping_neg() };
                        let kk = self.inum(&mag.to_string());
                        unsafe {
                            let d = Z3_mk_sub(c, 2, [a, kk].as_ptr());
                            if x.x[p as usize].lo >= mag {
                                d
                            } else {
                                Z3_mk_ite(c, Z3_mk_le(c, zero, d), d, Z3_mk_add(c, 2, [d, m].as_ptr()))
                            }
                        }
                    }
                    _ => {
                        let b = self.itr(x, q);
                        unsafe {
                            let s = Z3_mk_add(c, 2, [a, b].as_ptr());
                            let big = x.x[p as usize].hi.checked_add(x.x[q as usize].hi).map_or(true, |t| w < 128 && t >> w != 0);
                            if big { Z3_mk_ite(c, Z3_mk_lt(c, s, m), s, Z3_mk_sub(c, 2, [s, m].as_ptr())) } else { s }
                        }
                    }
                }
            }
            N::Sub(p, q) => {
                let a = self.itr(x, p);
                let b = self.itr(x, q);
                let m = self.pow2(w);
                let zero = self.inum("0");
                unsafe {
                    let d = Z3_mk_sub(c, 2, [a, b].as_ptr());
                    Z3_mk_ite(c, Z3_mk_le(c, zero, d), d, Z3_mk_add(c, 2, [d, m].as_ptr()))
                }
            }
            N::Mul(p, q) => {
                let over = x.x[p as usize].hi.checked_mul(x.x[q as usize].hi).is_none_or(|m| w < 128 && m >> w != 0);
                if over {
                    // modular, over the signed reading of the factors
                    let a = [self.ival(x, p), self.ival(x, q)];
                    let m = self.pow2(w);
                    unsafe { Z3_mk_mod(c, Z3_mk_mul(c, 2, a.as_ptr()), m) }
                } else {
                    let a = [self.itr(x, p), self.itr(x, q)];
                    unsafe { Z3_mk_mul(c, 2, a.as_ptr()) }
                }
            }
            N::UDiv(p, q) => {
                let (a, b) = (self.itr(x, p), self.itr(x, q));
                unsafe { Z3_mk_div(c, a, b) }
            }
            N::URem(p, q) => {
                let (a, b) = (self.itr(x, p), self.itr(x, q));
                unsafe { Z3_mk_mod(c, a, b) }
            }
            N::Ite(k, p, q) => {
                let (a, b, d) = (self.itr(x, k), self.itr(x, p), self.itr(x, q));
                unsafe { Z3_mk_ite(c, a, b, d) }
            }
            N::Concat(p, q) => {
                let b = self.iof(x, q);
                if matches!(x.n(p), N::Const(0)) {
                    b
                } else {
                    let a = self.iof(x, p);
                    let k = self.pow2(x.w(q));
                    unsafe {
                        let m = Z3_mk_mul(c, 2, [a, k].as_ptr());
                        Z3_mk_add(c, 2, [m, b].as_ptr())
                    }
                }
            }
            N::Extract(p, lo) => {
                let mut a = self.itr(x, p);
                unsafe {
                    if lo > 0 {
                        let k = self.pow2(lo);
                        a = Z3_mk_div(c, a, k);
                    }
                    if lo + w < x.w(p) && (lo + w >= 128 || x.x[p as usize].hi >> (lo + w) != 0) {
                        let k = self.pow2(w);
                        a = Z3_mk_mod(c, a, k);
                    }
                    if w == 1 {
                        let o = self.inum("1");
                        a = Z3_mk_eq(c, a, o);
                    }
                }
                a
            }
            N::SExt(p) => {
                let a = self.itr(x, p);
                let ones = self.inum(&if w == 128 { u128::MAX } else { (1u128 << w) - 1 }.to_string());
                let z = self.inum("0");
                unsafe { Z3_mk_ite(c, a, ones, z) }
            }
            N::And(p, q) => {
                let a = [self.itr(x, p), self.itr(x, q)];
                unsafe { Z3_mk_and(c, 2, a.as_ptr()) }
            }
            N::Or(p, q) => {
                let a = [self.itr(x, p), self.itr(x, q)];
                unsafe { Z3_mk_or(c, 2, a.as_ptr()) }
            }
            N::Xor(p, q) => {
                let (a, b) = (self.itr(x, p), self.itr(x, q));
                unsafe { Z3_mk_xor(c, a, b) }
            }
            N::Not(p) => {
                let a = self.itr(x, p);
                unsafe { Z3_mk_not(c, a) }
            }
            N::Eq(p, q) => {
                let (a, b) = (self.itr(x, p), self.itr(x, q));
                unsafe { Z3_mk_eq(c, a, b) }
            }
            N::Ult(p, q) => {
                let (a, b) = (self.iof(x, p), self.iof(x, q));
                unsafe { Z3_mk_lt(c, a, b) }
            }
            N::Ule(p, q) => {
                let (a, b) = (self.iof(x, p), self.iof(x, q));
                unsafe { Z3_mk_le(c, a, b) }
            }
            N::Slt(p, q) => {
                let (a, b) = (self.ival(x, p), self.ival(x, q));
                unsafe { Z3_mk_lt(c, a, b) }
            }
            N::Sle(p, q) => {
                let (a, b) = (self.ival(x, p), self.ival(x, q));
                unsafe { Z3_mk_le(c, a, b) }
            }
            _ => unreachable!(),
        };
        unsafe { Z3_inc_ref(c, r) };
        self.iast.insert(e, r);
        r
    }
    /// value read as a two's complement number
    fn ival(&mut self, x: &Ctx, e: E) -> P {
        let w = x.w(e);
        if w == 1 {
            let a = self.itr(x, e);
            let (o, z) = (self.inum("-1"), self.inum("0"));
            return unsafe { Z3_mk_ite(self.c, a, o, z) };
        }
        let h = 1u128 << (w - 1);
        if let N::Const(v) = x.n(e) {
            let s = if v < h { v.to_string() } else { (v as i128).wrapping_sub(if w < 128 { 1i128 << w } else { 0 }).to_string() };
            return self.inum(&s);
        }
        let a = self.itr(x, e);
        if x.x[e as usize].hi < h {
            return a;
        }
        let (hh, m) = (self.inum(&h.to_string()), self.pow2(w));
        unsafe { Z3_mk_ite(self.c, Z3_mk_lt(self.c, a, hh), a, Z3_mk_sub(self.c, 2, [a, m].as_ptr())) }
    }
    fn iof(&mut self, x: &Ctx, e: E) -> P {
        let a = self.itr(x, e);
        if x.w(e) == 1 {
            let (o, z) = (self.inum("1"), self.inum("0"));
            unsafe { Z3_mk_ite(self.c, a, o, z) }
        } else {
            a
        }
    }
    /// the query over the integers, when it has such a form and wide arithmetic
    fn check_int(&mut self, x: &Ctx, cs: &[E], vars: &[u32]) -> Option<Res> {
        let mut wide = false;
        for e in cs {
            wide |= self.linear(x, *e)?;
        }
        if !wide {
            return None;
        }
        unsafe {
            if self.isolver.is_null() {
                self.isolver = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, self.isolver);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 3_000_000);
                Z3_solver_set_params(self.c, self.isolver, p);
            }
            let s = self.isolver;
            Z3_solver_reset(self.c, s);
            let zero = self.inum("0");
            let mut consts = vec![];
            for v in vars {
                let w = x.vars[*v as usize].w;
                let sy = Z3_mk_int_symbol(self.c, *v as c_int);
                let k = if w == 1 { Z3_mk_const(self.c, sy, self.boolean) } else { Z3_mk_const(self.c, sy, Z3_mk_int_sort(self.c)) };
                Z3_inc_ref(self.c, k);
                consts.push((*v, w, k));
                if w > 1 {
                    let m = self.pow2(w);
                    Z3_solver_assert(self.c, s, Z3_mk_le(self.c, zero, k));
                    Z3_solver_assert(self.c, s, Z3_mk_lt(self.c, k, m));
                }
            }
            for e in cs {
                let a = self.itr(x, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            match r {
                -1 => {
                    self.int_queries += 1;
                    Some(Res::Unsat)
                }
                1 => {
                    self.int_queries += 1;
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vs = vec![];
                    for (v, w, k) in consts {
                        let mut out: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, k, true, &mut out) {
                            panic!("model eval");
                        }
                        let val = if w == 1 {
                            (Z3_get_bool_value(self.c, out) == 1) as u128
                        } else {
                            std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap().parse().unwrap()
                        };
                        vs.push((v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(Res::Sat(vs))
                }
                _ => None,
            }
        }
    }
    /// conjunction of the given width-1 expressions; on sat the values of the given variables
    pub fn check(&mut self, x: &Ctx, cs: &[E], vars: &[u32]) -> Res {
        let t = std::time::Instant::now();
        self.queries += 1;
        if let Some(r) = self.check_int(x, cs, vars) {
            self.time += t.elapsed();
            if std::env::var("SYMEX_Q").is_ok() {
                eprintln!("qi {} cs {:?}", cs.len(), t.elapsed());
            }
            return r;
        }
        if self.nsel > std::env::var("SYMEX_SEL").ok().and_then(|v| v.parse().ok()).unwrap_or(3000) {
            self.reset_solver();
        }
        let sels: Vec<P> = cs.iter().map(|e| self.selector(x, *e)).collect();
        let r = unsafe { Z3_solver_check_assumptions(self.c, self.solver, sels.len() as c_uint, sels.as_ptr()) };
        let out = match r {
            -1 => Res::Unsat,
            1 => {
                let mut vs = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.c, self.solver);
                    Z3_model_inc_ref(self.c, m);
                    for v in vars {
                        let w = x.vars[*v as usize].w;
                        let s = if w == 1 { self.boolean } else { self.bvs(w) };
                        let sy = Z3_mk_int_symbol(self.c, *v as c_int);
                        let k = Z3_mk_const(self.c, sy, s);
                        Z3_inc_ref(self.c, k);
                        let mut out: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, k, true, &mut out) {
                            panic!("model eval");
                        }
                        let val = if w == 1 {
                            (Z3_get_bool_value(self.c, out) == 1) as u128
                        } else {
                            let mut u = 0u64;
                            if w <= 64 && Z3_get_numeral_uint64(self.c, out, &mut u) {
                                u as u128
                            } else {
                                let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out));
                                s.to_str().unwrap().parse().unwrap()
                            }
                        };
                        vs.push((*v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                Res::Sat(vs)
            }
            _ => Res::Unknown,
        };
        if std::env::var("SYMEX_Q").is_ok() { eprintln!("q {} cs {:?}{}", cs.len(), t.elapsed(), if t.elapsed().as_millis() > 100 { cs.iter().map(|c| format!("\n     {}", x.show(*c, 8))).collect::<String>() } else { String::new() }); }
        self.time += t.elapsed();
        out
    }
}
