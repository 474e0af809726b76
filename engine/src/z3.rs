//! Minimal binding to the Z3 C API and the translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

pub struct Z3 {
    c: P,
    memo: FxMap<E, P>,
    vars: Vec<P>,
    decs: FxMap<u32, P>,
    round: FxMap<u32, P>,
    bool_memo: FxMap<E, P>,
    uses_fp: bool,
    pub queries: u64,
    pub secs: f64,
    pub timeout_ms: u32,
    pub maxq: f64,
    pub dump: Option<String>, // directory for dumped queries
    pub dumped: u32,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            Z3 { c, memo: Default::default(), vars: vec![], decs: Default::default(), round: Default::default(), bool_memo: Default::default(), uses_fp: false, queries: 0, secs: 0.0, timeout_ms: 60_000, maxq: 0.0, dump: None, dumped: 0 }
        }
    }
    fn err(&self) {
        unsafe {
            let e = Z3_get_error_code(self.c);
            if e != 0 {
                panic!("z3 error {}", CStr::from_ptr(Z3_get_error_msg(self.c, e)).to_string_lossy());
            }
        }
    }
    fn bv(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn sym(&self, s: &str) -> P {
        let s = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, s.as_ptr()) }
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.bv(w as u32))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bv(w as u32))
            }
        }
    }
    fn var(&mut self, x: &Ctx, v: u32) -> P {
        while self.vars.len() <= v as usize {
            let i = self.vars.len();
            let w = x.vars[i].w;
            let s = self.sym(&format!("v{}", i));
            let t = self.bv(w as u32);
            self.vars.push(unsafe { Z3_mk_const(self.c, s, t) });
        }
        self.vars[v as usize]
    }
    fn fp(&self, a: P, w: u8) -> P {
        unsafe {
            let s = if w == 64 { Z3_mk_fpa_sort_double(self.c) } else { Z3_mk_fpa_sort_single(self.c) };
            Z3_mk_fpa_to_fp_bv(self.c, a, s)
        }
    }
    /// boolean translation of a 1-bit expression
    fn boolean(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bool_memo.get(&e) {
            return *p;
        }
        let n = x.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Not => {
                    let a = self.boolean(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    let v = [a, b];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Eq => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    self.uses_fp = true;
                    let w = x.w(n.a);
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    let (a, b) = (self.fp(a, w), self.fp(b, w));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    let d = self.boolean(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.tr(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bool_memo.insert(e, r);
        r
    }
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let n = x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(x.consts[n.a as usize], n.w),
                Op::Var => self.var(x, n.a),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => {
                    let b = self.boolean(x, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Not => {
                    let a = self.tr(x, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    match n.op {
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => Z3_mk_concat(c, a, b),
                    }
                }
                Op::Extract => {
                    let a = self.tr(x, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.tr(x, n.a);
                    Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.tr(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as u32, a)
                }
                Op::Ite => {
                    let a = self.boolean(x, n.a);
                    let b = self.tr(x, n.b);
                    let d = self.tr(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Lut => {
                    // ordered runs of equal values: ite(idx<=k0, v0, ite(idx<=k1, ...)); 0 outside
                    let idx = self.tr(x, n.a);
                    let wi = x.w(n.a);
                    let t = x.tables[n.b as usize].1.clone();
                    let mut runs: Vec<(u64, u64)> = vec![]; // (last index, value)
                    for (i, v) in t.iter().enumerate() {
                        match runs.last_mut() {
                            Some(l) if l.1 == *v => l.0 = i as u64,
                            _ => runs.push((i as u64, *v)),
                        }
                    }
                    let full = wi <= 16 && t.len() as u64 > mask(wi);
                    let mut acc = if full { self.num(runs.pop().unwrap().1 as u128, n.w) } else { self.num(0, n.w) };
                    for (k, v) in runs.into_iter().rev() {
                        let kk = self.num(k as u128, wi);
                        let vv = self.num(v as u128, n.w);
                        let cnd = Z3_mk_bvule(c, idx, kk);
                        acc = Z3_mk_ite(c, cnd, vv, acc);
                    }
                    acc
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    self.uses_fp = true;
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    let (a, b) = (self.fp(a, n.w), self.fp(b, n.w));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FTrunc => {
                    self.uses_fp = true;
                    let a = self.tr(x, n.a);
                    let a = self.fp(a, n.w);
                    let r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a);
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::UToF | Op::SToF => {
                    self.uses_fp = true;
                    let a = self.tr(x, n.a);
                    let s = if n.w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                    let rm = Z3_mk_fpa_rne(c);
                    let r = if n.op == Op::UToF { Z3_mk_fpa_to_fp_unsigned(c, rm, a, s) } else { Z3_mk_fpa_to_fp_signed(c, rm, a, s) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FToU | Op::FToS => {
                    self.uses_fp = true;
                    let a = self.tr(x, n.a);
                    let a = self.fp(a, x.w(n.a));
                    let rm = Z3_mk_fpa_rtz(c);
                    if n.op == Op::FToU {
                        Z3_mk_fpa_to_ubv(c, rm, a, n.w as u32)
                    } else {
                        Z3_mk_fpa_to_sbv(c, rm, a, n.w as u32)
                    }
                }
                Op::FRound | Op::FExt => {
                    self.uses_fp = true;
                    let a = self.tr(x, n.a);
                    let a = self.fp(a, x.w(n.a));
                    let s = if n.w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                    let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, s);
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::Round15 | Op::FormSel => {
                    let a = self.tr(x, n.a);
                    let key = (n.op as u32) << 16 | n.b;
                    let f = match self.round.get(&key) {
                        Some(f) => *f,
                        None => {
                            let s = self.sym(&format!("uf{}", key));
                            let d = [self.bv(64)];
                            let f = Z3_mk_func_decl(c, s, 1, d.as_ptr(), self.bv(n.w as u32));
                            self.round.insert(key, f);
                            f
                        }
                    };
                    let args = [a];
                    Z3_mk_app(c, f, 1, args.as_ptr())
                }
                Op::Dec => match self.decs.get(&n.a) {
                    Some(p) => *p,
                    None => {
                        let s = self.sym(&format!("dec{}", n.a));
                        let p = Z3_mk_const(c, s, self.bv(64));
                        self.decs.insert(n.a, p);
                        p
                    }
                },
            }
        };
        self.memo.insert(e, r);
        r
    }
    fn var_dom(&mut self, x: &Ctx, v: u32, dom: Option<&[u64; 4]>) -> P {
        let c = self.c;
        let p = self.var(x, v);
        let w = x.vars[v as usize].w;
        unsafe {
            match dom {
                Some(d) if w <= 8 => {
                    // union of ranges
                    let mut rs: Vec<P> = vec![];
                    let mut i = 0usize;
                    let top = 1usize << w;
                    let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                    while i < top {
                        if has(i) {
                            let s = i;
                            while i < top && has(i) {
                                i += 1
                            }
                            let e = i - 1;
                            let (lo, hi) = (self.num(s as u128, w), self.num(e as u128, w));
                            let r = if s == e {
                                Z3_mk_eq(c, p, lo)
                            } else {
                                let v = [Z3_mk_bvule(c, lo, p), Z3_mk_bvule(c, p, hi)];
                                Z3_mk_and(c, 2, v.as_ptr())
                            };
                            rs.push(r);
                        } else {
                            i += 1
                        }
                    }
                    Z3_mk_or(c, rs.len() as u32, rs.as_ptr())
                }
                _ => {
                    let (lo, hi) = (x.vars[v as usize].lo, x.vars[v as usize].hi);
                    if lo == 0 && hi == mask(w) {
                        Z3_mk_true(c)
                    } else {
                        let (l, h) = (self.num(lo as u128, w), self.num(hi as u128, w));
                        let v = [Z3_mk_bvule(c, l, p), Z3_mk_bvule(c, p, h)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                }
            }
        }
    }
    /// none of the conditions (negated when the flag is set) can hold with its variable in the given set
    pub fn refute(&mut self, x: &Ctx, items: &[(E, bool, u32, [u64; 4])]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.uses_fp = false;
        unsafe {
            let c = self.c;
            let mut any = vec![];
            for (e, neg, v, d) in items {
                let b = self.boolean(x, *e);
                let b = if *neg { Z3_mk_not(c, b) } else { b };
                let q = [b, self.var_dom(x, *v, Some(d))];
                any.push(Z3_mk_and(c, 2, q.as_ptr()));
            }
            let f = Z3_mk_or(c, any.len() as u32, any.as_ptr());
            self.err();
            let gen = items.iter().any(|i| has_fp(x, i.0));
            let s = if gen { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, self.sym("QF_BV")) };
            Z3_solver_inc_ref(c, s);
            Z3_solver_assert(c, s, f);
            let r = match Z3_solver_check(c, s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            self.maxq = self.maxq.max(dt);
            r
        }
    }
    /// check the conjunction; on Sat the values of `vars` are returned
    pub fn check(&mut self, x: &Ctx, cons: &[E], vars: &[u32], dom: &dyn Fn(u32) -> Option<[u64; 4]>) -> (Res, Vec<(u32, u64)>) {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.uses_fp = false;
        unsafe {
            let c = self.c;
            let mut fs = vec![];
            for e in cons {
                let b = self.boolean(x, *e);
                fs.push(b);
            }
            for v in vars {
                let d = dom(*v);
                let f = self.var_dom(x, *v, d.as_ref());
                fs.push(f);
            }
            self.err();
            // floating point or uninterpreted functions: general solver
            let gen = cons.iter().any(|e| has_fp(x, *e));
            let s = if gen { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, self.sym("QF_BV")) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, self.sym("timeout"), self.timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for f in fs {
                Z3_solver_assert(c, s, f);
            }
            if let Some(d) = &self.dump {
                if self.dumped < 40 && (self.queries.count_ones() == 1 || self.queries % 97 == 0) {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let f = format!("{}/q{}_{:?}.smt2", d, self.queries, std::thread::current().id());
                    let _ = std::fs::write(&f, format!("{}\n(check-sat)\n", txt));
                    self.dumped += 1;
                }
            }
            let r = Z3_solver_check(c, s);
            let mut out = vec![];
            let res = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if res == Res::Sat {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                for v in vars {
                    let p = self.var(x, *v);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(c, m, p, true, &mut o) {
                        let mut val = 0u64;
                        if Z3_get_numeral_uint64(c, o, &mut val) {
                            out.push((*v, val));
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
            }
            Z3_solver_dec_ref(c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.maxq {
                self.maxq = dt;
            }
            (res, out)
        }
    }
}

pub fn has_fp(x: &Ctx, e: E) -> bool {
    let mut seen: FxMap<E, ()> = Default::default();
    let mut st = vec![e];
    while let Some(e) = st.pop() {
        if seen.insert(e, ()).is_some() {
            continue;
        }
        let n = x.n(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::Round15 | Op::FRound | Op::FExt | Op::FormSel => return true,
            Op::Dec => {}
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Lut => st.push(n.a),
            Op::Ite => st.extend([n.a, n.b, n.c]),
            _ => st.extend([n.a, n.b]),
        }
    }
    false
}
/// does the expression depend on operations whose solver meaning is an abstraction?
pub fn has_uf(x: &Ctx, e: E) -> bool {
    let mut seen: FxMap<E, ()> = Default::default();
    let mut st = vec![e];
    while let Some(e) = st.pop() {
        if seen.insert(e, ()).is_some() {
            continue;
        }
        let n = x.n(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Round15 | Op::FormSel | Op::Dec => return true,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Lut | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FRound | Op::FExt => st.push(n.a),
            Op::Ite => st.extend([n.a, n.b, n.c]),
            _ => st.extend([n.a, n.b]),
        }
    }
    false
}
