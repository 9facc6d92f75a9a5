//! Minimal binding to libz3 and the translation of terms.
use crate::term::*;
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;

unsafe extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_simple_solver(c: Ctx) -> *mut c_void;
    fn Z3_mk_solver_from_tactic(c: Ctx, t: *mut c_void) -> *mut c_void;
    fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> *mut c_void;
    fn Z3_tactic_inc_ref(c: Ctx, t: *mut c_void);
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_dec_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_solver_push(c: Ctx, s: *mut c_void);
    fn Z3_solver_pop(c: Ctx, s: *mut c_void, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, so: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, so: Sort) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, b: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, t: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, t: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_fma(c: Ctx, rm: Ast, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_min(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_max(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_negative(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_numeral_double(c: Ctx, v: f64, s: Sort) -> Ast;
    fn Z3_mk_fpa_neg(c: Ctx, a: Ast) -> Ast;
    fn Z3_solver_to_string(c: Ctx, s: *mut c_void) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    unsafe { eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e))); }
    std::process::exit(2);
}

#[derive(Debug, Clone)]
pub enum Res { Sat(Vec<(u32, u64)>, Vec<(u32, u128)>), Unsat, Unknown }

pub struct Z3 {
    c: Ctx, s: *mut c_void, memo: Vec<Ast>, bmemo: FxMap<T, Ast>, fmemo: FxMap<T, Ast>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub timeout_ms: u32, pub maxq: f64,
    fp_used: bool,
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut z = Z3 { c, s, memo: vec![], bmemo: Default::default(), fmemo: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, timeout_ms, maxq: 0.0, fp_used: false };
            z.set_timeout(s, timeout_ms.min(20000));
            z
        }
    }
    unsafe fn set_timeout(&mut self, s: *mut c_void, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn num(&self, v: u128, w: u16) -> Ast {
        unsafe { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as u32)) }
    }
    fn fsort(&self, w: u16) -> Sort { unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) } } }
    fn b2v(&self, b: Ast) -> Ast { unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) } }
    fn get(&self, t: T) -> Ast { self.memo[t as usize] }
    fn has(&self, t: T) -> bool { !self.memo[t as usize].is_null() }

    /// Boolean view of a 1-bit term (children already translated).
    fn boolean(&mut self, t: T) -> Ast {
        if let Some(&b) = self.bmemo.get(&t) { return b; }
        let b = unsafe { Z3_mk_eq(self.c, self.get(t), self.num(1, 1)) };
        self.bmemo.insert(t, b);
        b
    }
    fn fp(&mut self, t: T) -> Ast {
        if let Some(&f) = self.fmemo.get(&t) { return f; }
        let w = tm().w(t);
        let f = unsafe { Z3_mk_fpa_to_fp_bv(self.c, self.get(t), self.fsort(w)) };
        self.fmemo.insert(t, f);
        f
    }
    fn fres(&mut self, t: T, f: Ast, w: u16) -> Ast {
        self.fmemo.insert(t, f);
        self.fp_used = true;
        unsafe {
            let nan = self.num(if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 }, w);
            Z3_mk_ite(self.c, Z3_mk_fpa_is_nan(self.c, f), nan, Z3_mk_fpa_to_ieee_bv(self.c, f))
        }
    }
    fn mux(&mut self, data: &[u8], off: T, bits: u16, base: usize, w: u16, umax: u128) -> Ast {
        // value at `base + (off & mask(bits))`
        if base as u128 > umax || base >= data.len() { return self.num(0, w); }
        if bits == 0 { let v = tab_read(data, base, w); return self.num(v, w); }
        let bit = { let t = tm().extract(off, bits - 1, bits - 1); t };
        if let Some(k) = tm().is_const(bit) {
            return self.mux(data, off, bits - 1, base + if k == 1 { 1usize << (bits - 1) } else { 0 }, w, umax);
        }
        let lo = self.mux(data, off, bits - 1, base, w, umax);
        let hb = base + (1usize << (bits - 1));
        if hb as u128 > umax || hb >= data.len() { return lo; }
        let hi = self.mux(data, off, bits - 1, hb, w, umax);
        if lo == hi { return lo; }
        self.translate(bit);
        let b = self.boolean(bit);
        unsafe { Z3_mk_ite(self.c, b, hi, lo) }
    }
    pub fn translate(&mut self, t: T) -> Ast {
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.memo.len() < tm().nodes.len() { self.memo.resize(tm().nodes.len() + 1024, std::ptr::null_mut()); }
            if self.has(x) { stack.pop(); continue; }
            let n = tm().nodes[x as usize].clone();
            if n.op != Op::Const && n.op != Op::Var {
                let mut ready = true;
                for c in [n.a, n.b, n.c] { if c != 0 && !self.has(c) { stack.push(c); ready = false; } }
                if !ready { continue; }
            }
            let a = self.tr1(x, &n);
            if self.memo.len() < tm().nodes.len() { self.memo.resize(tm().nodes.len() + 1024, std::ptr::null_mut()); }
            self.memo[x as usize] = a;
            stack.pop();
        }
        self.memo[t as usize]
    }
    fn tr1(&mut self, x: T, n: &Node) -> Ast {
        let c = self.c;
        let w = n.w;
        let g = |t: T| self.memo[t as usize];
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.k, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w as u32))
                }
                Op::Uf => {
                    let s = CString::new(format!("u{}_{}", n.k, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w as u32))
                }
                Op::Not => Z3_mk_bvnot(c, g(n.a)),
                Op::And => Z3_mk_bvand(c, g(n.a), g(n.b)),
                Op::Or => Z3_mk_bvor(c, g(n.a), g(n.b)),
                Op::Xor => Z3_mk_bvxor(c, g(n.a), g(n.b)),
                Op::Add => Z3_mk_bvadd(c, g(n.a), g(n.b)),
                Op::Sub => Z3_mk_bvsub(c, g(n.a), g(n.b)),
                Op::Mul => Z3_mk_bvmul(c, g(n.a), g(n.b)),
                Op::UDiv => Z3_mk_bvudiv(c, g(n.a), g(n.b)),
                Op::SDiv => Z3_mk_bvsdiv(c, g(n.a), g(n.b)),
                Op::URem => Z3_mk_bvurem(c, g(n.a), g(n.b)),
                Op::SRem => Z3_mk_bvsrem(c, g(n.a), g(n.b)),
                Op::Shl => Z3_mk_bvshl(c, g(n.a), g(n.b)),
                Op::LShr => Z3_mk_bvlshr(c, g(n.a), g(n.b)),
                Op::AShr => Z3_mk_bvashr(c, g(n.a), g(n.b)),
                Op::Concat => Z3_mk_concat(c, g(n.a), g(n.b)),
                Op::Extract => Z3_mk_extract(c, n.k as u32 + w as u32 - 1, n.k as u32, g(n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, (w - tm().w(n.a)) as u32, g(n.a)),
                Op::SExt => Z3_mk_sign_ext(c, (w - tm().w(n.a)) as u32, g(n.a)),
                Op::Eq => self.b2v(Z3_mk_eq(c, g(n.a), g(n.b))),
                Op::Ult => self.b2v(Z3_mk_bvult(c, g(n.a), g(n.b))),
                Op::Ule => self.b2v(Z3_mk_bvule(c, g(n.a), g(n.b))),
                Op::Slt => self.b2v(Z3_mk_bvslt(c, g(n.a), g(n.b))),
                Op::Sle => self.b2v(Z3_mk_bvsle(c, g(n.a), g(n.b))),
                Op::Ite => { let (p, q) = (g(n.b), g(n.c)); let b = self.boolean(n.a); Z3_mk_ite(c, b, p, q) }
                Op::Table => {
                    let d = tm().tables[n.k as usize].clone();
                    let um = tm().umax[n.a as usize].min(d.len() as u128 - 1);
                    let mut bits = 0; while (um >> bits) != 0 { bits += 1; }
                    self.mux(&d, n.a, bits, 0, w, um)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) };
                    self.fres(x, f, w)
                }
                Op::FSqrt => { let a = self.fp(n.a); let f = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a); self.fres(x, f, w) }
                Op::FFma => { let (a, b, d) = (self.fp(n.a), self.fp(n.b), self.fp(n.c)); let f = Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), a, b, d); self.fres(x, f, w) }
                Op::FMin => { let (a, b) = (self.fp(n.a), self.fp(n.b)); let f = Z3_mk_fpa_min(c, a, b); self.fres(x, f, w) }
                Op::FMax => { let (a, b) = (self.fp(n.a), self.fp(n.b)); let f = Z3_mk_fpa_max(c, a, b); self.fres(x, f, w) }
                Op::FRem => { // left unconstrained (over-approximation)
                    let s = CString::new(format!("frem{}", x)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w as u32))
                }
                Op::FEq => { let (a, b) = (self.fp(n.a), self.fp(n.b)); self.b2v(Z3_mk_fpa_eq(c, a, b)) }
                Op::FLt => { let (a, b) = (self.fp(n.a), self.fp(n.b)); self.b2v(Z3_mk_fpa_lt(c, a, b)) }
                Op::FLe => { let (a, b) = (self.fp(n.a), self.fp(n.b)); self.b2v(Z3_mk_fpa_leq(c, a, b)) }
                Op::FIsNan => { let a = self.fp(n.a); self.b2v(Z3_mk_fpa_is_nan(c, a)) }
                Op::FExt => { let a = self.fp(n.a); let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(64)); self.fres(x, f, 64) }
                Op::FTrunc => { let a = self.fp(n.a); let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(32)); self.fres(x, f, 32) }
                Op::SToF => { let f = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), g(n.a), self.fsort(w)); self.fres(x, f, w) }
                Op::UToF => { let f = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), g(n.a), self.fsort(w)); self.fres(x, f, w) }
                Op::FRound => {
                    let a = self.fp(n.a);
                    let rm = match n.k { 0 => Z3_mk_fpa_rtz(c), 1 => Z3_mk_fpa_rtn(c), 2 => Z3_mk_fpa_rtp(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                    let f = Z3_mk_fpa_round_to_integral(c, rm, a);
                    self.fres(x, f, w)
                }
                Op::FToU | Op::FToS => {
                    let wa = tm().w(n.a);
                    let a = self.fp(n.a);
                    let so = self.fsort(wa);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let wf = w as i32;
                    let zero = self.num(0, w);
                    let nan = Z3_mk_fpa_is_nan(c, a);
                    if n.op == Op::FToU {
                        let lim = Z3_mk_fpa_numeral_double(c, 2f64.powi(wf), so);
                        let over = Z3_mk_fpa_leq(c, lim, a);
                        let neg = Z3_mk_fpa_leq(c, a, Z3_mk_fpa_numeral_double(c, -1.0, so));
                        // values in (-1, 0) truncate to 0; to_ubv is defined there
                        let conv = Z3_mk_fpa_to_ubv(c, rtz, a, w as u32);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_is_negative(c, a), zero, conv);
                        let r = Z3_mk_ite(c, neg, zero, r);
                        let r = Z3_mk_ite(c, over, self.num(mask(w), w), r);
                        Z3_mk_ite(c, nan, zero, r)
                    } else {
                        let lim = Z3_mk_fpa_numeral_double(c, 2f64.powi(wf - 1), so);
                        let over = Z3_mk_fpa_leq(c, lim, a);
                        let under = Z3_mk_fpa_lt(c, a, Z3_mk_fpa_neg(c, lim));
                        let conv = Z3_mk_fpa_to_sbv(c, rtz, a, w as u32);
                        let r = Z3_mk_ite(c, under, self.num(1u128 << (w - 1), w), conv);
                        let r = Z3_mk_ite(c, over, self.num(mask(w) >> 1, w), r);
                        Z3_mk_ite(c, nan, zero, r)
                    }
                }
            }
        }
    }
    fn uses_fp(&self, ts: &[T]) -> bool {
        let mut seen: FxSet<T> = Default::default();
        let mut st: Vec<T> = ts.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = &tm().nodes[x as usize];
            if (n.op as u8) >= Op::FAdd as u8 && n.op != Op::Uf { return true; }
            if n.op != Op::Const && n.op != Op::Var { for c in [n.a, n.b, n.c] { if c != 0 { st.push(c); } } }
        }
        false
    }
    /// Is the conjunction of the (1-bit) terms satisfiable?
    pub fn check(&mut self, ts: &[T]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            let asts: Vec<Ast> = ts.iter().map(|&t| { self.translate(t); self.boolean(t) }).collect();
            let s = self.s;
            let fp = self.fp_used && self.uses_fp(ts);
            let mut r = 0;
            let mut tmp: *mut c_void = std::ptr::null_mut();
            if !fp {
                Z3_solver_push(c, s);
                for a in &asts { Z3_solver_assert(c, s, *a); }
                r = Z3_solver_check(c, s);
                if r == 0 { Z3_solver_pop(c, s, 1); }
            }
            if r == 0 {
                let name = CString::new(if fp { "qffpbv" } else { "qfbv" }).unwrap();
                let tac = Z3_mk_tactic(c, name.as_ptr());
                Z3_tactic_inc_ref(c, tac);
                tmp = Z3_mk_solver_from_tactic(c, tac);
                Z3_solver_inc_ref(c, tmp);
                let tmo = self.timeout_ms;
                self.set_timeout(tmp, tmo);
                for a in &asts { Z3_solver_assert(c, tmp, *a); }
                r = Z3_solver_check(c, tmp);
            }
            let which = if tmp.is_null() { s } else { tmp };
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, which);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    let mut ufs = vec![];
                    // variables occurring in the query
                    let mut seen: FxSet<T> = Default::default();
                    let mut st: Vec<T> = ts.to_vec();
                    while let Some(x) = st.pop() {
                        if !seen.insert(x) { continue; }
                        let n = tm().nodes[x as usize].clone();
                        if n.op == Op::Const { continue; }
                        if n.op == Op::Var || n.op == Op::Uf {
                            let mut v: Ast = std::ptr::null_mut();
                            let a = self.get(x);
                            if Z3_model_eval(c, m, a, true, &mut v) {
                                let sv = CStr::from_ptr(Z3_get_numeral_string(c, v)).to_string_lossy();
                                let val: u128 = sv.parse().unwrap_or(0);
                                if n.op == Op::Var { vals.push((n.k as u32, val as u64)); } else { ufs.push((n.k as u32, val)); }
                            }
                            continue;
                        }
                        for ch in [n.a, n.b, n.c] { if ch != 0 { st.push(ch); } }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(vals, ufs)
                }
                -1 => Res::Unsat,
                _ => {
                    if std::env::var("LLSYM_DUMP_UNKNOWN").is_ok() { eprintln!("UNKNOWN: {:?}", CStr::from_ptr(Z3_solver_to_string(c, which))); }
                    Res::Unknown
                }
            };
            if tmp.is_null() { Z3_solver_pop(c, s, 1); } else { Z3_solver_dec_ref(c, tmp); }
            out
        };
        match r { Res::Sat(..) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxq { self.maxq = dt; }
        r
    }
}
