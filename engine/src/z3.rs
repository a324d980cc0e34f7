//! Minimal binding to the system libz3.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::sync::{Arc, Mutex, Once, Weak};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvuge(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_interrupt(c: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_: P, _: c_int) {}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// The query in progress: its context and when it began.  Z3's own timer
/// starts a thread for each query; one watchdog for all is much cheaper.
type Slot = Mutex<(usize, Option<std::time::Instant>)>;
static SLOTS: Mutex<Vec<Weak<Slot>>> = Mutex::new(vec![]);
static WATCHDOG: Once = Once::new();
fn slot(timeout_ms: u32) -> Arc<Slot> {
    let a = Arc::new(Mutex::new((0, None)));
    let mut g = SLOTS.lock().unwrap();
    g.retain(|x| x.strong_count() > 0);
    g.push(Arc::downgrade(&a));
    WATCHDOG.call_once(|| {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            for w in SLOTS.lock().unwrap().iter() {
                if let Some(w) = w.upgrade() {
                    let g = w.lock().unwrap();
                    if let (c, Some(t)) = *g {
                        if t.elapsed().as_millis() > timeout_ms as u128 {
                            unsafe { Z3_interrupt(c as P) }
                        }
                    }
                }
            }
        });
    });
    a
}

pub struct Solver {
    ctx: P,
    simple: P,
    fpsol: P,
    uses: u32,
    cache: Vec<P>,
    vars: Vec<P>,
    watch: Arc<Slot>,
    pub queries: u64,
    pub time: std::time::Duration,
    pub unknowns: u64,
    slow: bool,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), simple: std::ptr::null_mut(), fpsol: std::ptr::null_mut(), uses: 0, cache: vec![], vars: vec![], watch: slot(timeout_ms), queries: 0, time: Default::default(), unknowns: 0, slow: std::env::var_os("VS_SLOW").is_some() };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
        }
        self.mk_solvers();
    }
    fn mk_solvers(&mut self) {
        unsafe {
            let c = self.ctx;
            if !self.simple.is_null() {
                Z3_solver_dec_ref(c, self.simple);
                Z3_solver_dec_ref(c, self.fpsol);
            }
            self.simple = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, self.simple);
            let l = CString::new("QF_FPBV").unwrap();
            self.fpsol = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, self.fpsol);
            self.uses = 0;
        }
    }
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        self.simple = std::ptr::null_mut();
        self.fpsol = std::ptr::null_mut();
        self.cache.clear();
        self.vars.clear();
        self.init();
    }
    fn keep(&mut self, e: E, a: P) -> P {
        assert!(!a.is_null(), "z3 error {}", unsafe { Z3_get_error_code(self.ctx) });
        if self.cache.len() <= e as usize {
            self.cache.resize(e as usize + 1024, std::ptr::null_mut());
        }
        self.cache[e as usize] = a;
        a
    }
    fn bool2bv(&self, b: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_ite(self.ctx, b, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s))
        }
    }
    fn fsort(&self, w: u8) -> P {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_64(self.ctx)
            } else {
                Z3_mk_fpa_sort_32(self.ctx)
            }
        }
    }
    pub fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(e as usize) {
            if !p.is_null() {
                return p;
            }
        }
        let c = self.ctx;
        let n = ar.n[e as usize];
        let a = if n.a != 0 { self.tr(ar, n.a) } else { std::ptr::null_mut() };
        let b = if n.b != 0 { self.tr(ar, n.b) } else { std::ptr::null_mut() };
        let d = if n.c != 0 { self.tr(ar, n.c) } else { std::ptr::null_mut() };
        let aw = ar.w(n.a);
        let r = unsafe {
            let fp = |x: P| Z3_mk_fpa_to_fp_bv(c, x, self.fsort(aw));
            let rne = || Z3_mk_fpa_rne(c);
            match n.op {
                Op::Nil => panic!("nil expr"),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Const => Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Add => Z3_mk_bvadd(c, a, b),
                Op::Sub => Z3_mk_bvsub(c, a, b),
                Op::Mul => Z3_mk_bvmul(c, a, b),
                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                Op::URem => Z3_mk_bvurem(c, a, b),
                Op::SRem => Z3_mk_bvsrem(c, a, b),
                Op::Shl => Z3_mk_bvshl(c, a, b),
                Op::LShr => Z3_mk_bvlshr(c, a, b),
                Op::AShr => Z3_mk_bvashr(c, a, b),
                Op::And => Z3_mk_bvand(c, a, b),
                Op::Or => Z3_mk_bvor(c, a, b),
                Op::Xor => Z3_mk_bvxor(c, a, b),
                Op::Not => Z3_mk_bvnot(c, a),
                Op::Eq => self.bool2bv(Z3_mk_eq(c, a, b)),
                Op::Ult => self.bool2bv(Z3_mk_bvult(c, a, b)),
                Op::Ule => self.bool2bv(Z3_mk_bvule(c, a, b)),
                Op::Slt => self.bool2bv(Z3_mk_bvslt(c, a, b)),
                Op::Sle => self.bool2bv(Z3_mk_bvsle(c, a, b)),
                Op::Ite => {
                    let cond = self.as_bool(a);
                    Z3_mk_ite(c, cond, b, d)
                }
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - aw) as c_uint, a),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - aw) as c_uint, a),
                Op::Extract => Z3_mk_extract(c, (n.k + n.w as u64 - 1) as c_uint, n.k as c_uint, a),
                Op::Concat => Z3_mk_concat(c, a, b),
                Op::Tbl => {
                    let t = ar.tables[n.k as usize].clone();
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    let is = Z3_mk_bv_sort(c, aw as c_uint);
                    // runs of equal values
                    let lim = 1usize << aw.min(8);
                    let mut acc = Z3_mk_unsigned_int64(c, t[lim - 1] & mask(n.w), s);
                    let mut i = lim - 1;
                    while i > 0 {
                        if t[i - 1] != t[i] {
                            let cond = Z3_mk_bvuge(c, a, Z3_mk_unsigned_int64(c, i as u64, is));
                            acc = Z3_mk_ite(c, cond, acc, Z3_mk_unsigned_int64(c, t[i - 1] & mask(n.w), s));
                        }
                        i -= 1;
                    }
                    acc
                }
                Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), fp(a), fp(b))),
                Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), fp(a), fp(b))),
                Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), fp(a), fp(b))),
                Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), fp(a), fp(b))),
                Op::FRem => panic!("frem is not encoded"),
                Op::FEq => self.bool2bv(Z3_mk_fpa_eq(c, fp(a), fp(b))),
                Op::FLt => self.bool2bv(Z3_mk_fpa_lt(c, fp(a), fp(b))),
                Op::FLe => self.bool2bv(Z3_mk_fpa_leq(c, fp(a), fp(b))),
                Op::FUno => {
                    let xs = [Z3_mk_fpa_is_nan(c, fp(a)), Z3_mk_fpa_is_nan(c, fp(b))];
                    self.bool2bv(Z3_mk_or(c, 2, xs.as_ptr()))
                }
                Op::SToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), a, self.fsort(n.w))),
                Op::UToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), a, self.fsort(n.w))),
                Op::FExt | Op::FTrunc => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), fp(a), self.fsort(n.w))),
                Op::FToS | Op::FToU => {
                    let x = fp(a);
                    let fs = self.fsort(aw);
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    let (lo, hi, conv, min, max) = if n.op == Op::FToS {
                        (
                            -(2f64.powi(n.w as i32 - 1)),
                            2f64.powi(n.w as i32 - 1),
                            Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, n.w as c_uint),
                            1u64 << (n.w - 1),
                            mask(n.w) >> 1,
                        )
                    } else {
                        (0.0, 2f64.powi(n.w as i32), Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, n.w as c_uint), 0, mask(n.w))
                    };
                    let isnan = Z3_mk_fpa_is_nan(c, x);
                    let below = Z3_mk_fpa_lt(c, x, Z3_mk_fpa_numeral_double(c, lo, fs));
                    let above = Z3_mk_fpa_leq(c, Z3_mk_fpa_numeral_double(c, hi, fs), x);
                    let k = |v: u64| Z3_mk_unsigned_int64(c, v, s);
                    Z3_mk_ite(c, isnan, k(0), Z3_mk_ite(c, below, k(min), Z3_mk_ite(c, above, k(max), conv)))
                }
                Op::FRound => {
                    let rm = match n.k {
                        0 => Z3_mk_fpa_rtz(c),
                        1 => Z3_mk_fpa_rtn(c),
                        2 => Z3_mk_fpa_rtp(c),
                        3 => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fp(a)))
                }
                Op::FSqrt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rne(), fp(a))),
            }
        };
        if n.op == Op::Var {
            while self.vars.len() <= n.k as usize {
                self.vars.push(std::ptr::null_mut());
            }
            self.vars[n.k as usize] = r;
        }
        self.keep(e, r)
    }
    fn as_bool(&self, bv1: P) -> P {
        unsafe { Z3_mk_eq(self.ctx, bv1, Z3_mk_unsigned_int64(self.ctx, 1, Z3_mk_bv_sort(self.ctx, 1))) }
    }
    /// membership of variable in a 256-bit set
    fn dom(&mut self, ar: &mut Arena, v: u32, d: &[u64; 4]) -> Option<P> {
        let w = ar.var_w[v as usize];
        let lim = 1usize << w;
        let get = |i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut ors = vec![];
        let ve = ar.var(v, w);
        let x = self.tr(ar, ve);
        let c = self.ctx;
        unsafe {
            let s = Z3_mk_bv_sort(c, w as c_uint);
            let mut i = 0;
            let mut full = true;
            while i < lim {
                if get(i) {
                    let mut j = i;
                    while j + 1 < lim && get(j + 1) {
                        j += 1;
                    }
                    let k = |v: usize| Z3_mk_unsigned_int64(c, v as u64, s);
                    if i == j {
                        ors.push(Z3_mk_eq(c, x, k(i)));
                    } else {
                        let ab = [Z3_mk_bvule(c, k(i), x), Z3_mk_bvule(c, x, k(j))];
                        ors.push(Z3_mk_and(c, 2, ab.as_ptr()));
                    }
                    i = j + 1;
                } else {
                    full = false;
                    i += 1;
                }
            }
            if full {
                return None;
            }
            Some(if ors.is_empty() {
                Z3_mk_false(c)
            } else if ors.len() == 1 {
                ors[0]
            } else {
                Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr())
            })
        }
    }
    /// Satisfiability of the conjunction of Booleans `cs`, each variable in
    /// `doms` ranging over its set.  On Sat the model assigns `want`.
    pub fn check(&mut self, ar: &mut Arena, cs: &[(E, bool)], doms: &[(u32, [u64; 4])], want: &[u32]) -> (Sat, Vec<(u32, u64)>) {
        let t0 = std::time::Instant::now();
        // a non-reference-counted context keeps every term it ever made
        if self.uses > 20_000 {
            self.reset();
        } else if self.uses % 2000 == 1999 {
            let u = self.uses;
            self.mk_solvers();
            self.uses = u;
        }
        self.uses += 1;
        self.queries += 1;
        let fp = cs.iter().any(|x| ar.fp[x.0 as usize]);
        let mut asserts = vec![];
        for &(e, pos) in cs {
            let p = self.tr(ar, e);
            let b = self.as_bool(p);
            asserts.push(if pos { b } else { unsafe { Z3_mk_not(self.ctx, b) } });
        }
        for (v, d) in doms {
            if let Some(p) = self.dom(ar, *v, d) {
                asserts.push(p);
            }
        }
        let mut res = Sat::Unknown;
        let mut out = vec![];
        for attempt in 0..2 {
            let s = if fp || attempt == 1 { self.fpsol } else { self.simple };
            unsafe {
                let c = self.ctx;
                Z3_solver_push(c, s);
                for &a in &asserts {
                    Z3_solver_assert(c, s, a);
                }
                *self.watch.lock().unwrap() = (c as usize, Some(std::time::Instant::now()));
                let r = Z3_solver_check(c, s);
                *self.watch.lock().unwrap() = (0, None);
                res = match r {
                    1 => Sat::Sat,
                    -1 => Sat::Unsat,
                    _ => Sat::Unknown,
                };
                if res == Sat::Sat {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    for &v in want {
                        let ve = ar.var(v, ar.var_w[v as usize]);
                        let x = self.tr(ar, ve);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, x, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut u) {
                            out.push((v, u));
                        } else {
                            out.push((v, 0));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                }
                Z3_solver_pop(c, s, 1);
                if fp || res != Sat::Unknown {
                    break;
                }
            }
        }
        if res == Sat::Unknown {
            self.unknowns += 1;
        }
        let el = t0.elapsed();
        self.time += el;
        if self.slow && el.as_millis() > 3 {
            let t: Vec<String> = cs.iter().map(|x| format!("{}{}", if x.1 { "" } else { "!" }, ar.show(x.0))).collect();
            let mut o = format!("{res:?} {} ms, {} constraints: {}", el.as_millis(), cs.len(), t.join(" & "));
            o.truncate(1500);
            eprintln!("{o}");
        }
        (res, out)
    }
}
