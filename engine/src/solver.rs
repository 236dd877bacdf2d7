//! Thin layer over libz3's C API: translation of terms, incremental path-constraint solver, one-shot queries.
#![allow(non_camel_case_types, non_snake_case)]
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ast = *mut c_void;
type Ctx = *mut c_void;
type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: Ctx) -> P;
    fn Z3_mk_real_sort(c: Ctx) -> P;
    fn Z3_mk_int_sort(c: Ctx) -> P;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, t: P) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_single(c: Ctx) -> P;
    fn Z3_mk_fpa_sort_double(c: Ctx) -> P;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_fma(c: Ctx, rm: Ast, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_abs(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_neg(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_min(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_max(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_zero(c: P, t: P) -> P;
    fn Z3_mk_fpa_is_negative(c: P, t: P) -> P;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, t: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, t: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, t: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, t: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, t: Ast, s: P) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_mk_solver(c: Ctx) -> P;
    fn Z3_mk_solver_from_tactic(c: Ctx, t: P) -> P;
    fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: Ctx, t: P);
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_dec_ref(c: Ctx, s: P);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, a: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_func_decl(c: Ctx, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: Ctx, f: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_div(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_power(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn err_handler(_c: Ctx, _e: c_int) {}

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: Ctx,
    s: P,
    bv: Vec<Ast>,
    bv2: Vec<Ast>,
    narrow: bool,
    fp: Vec<Ast>,
    /// Floating-point operations nested deeper than this become unknown values with a few known facts.
    level: Option<u32>,
    /// The same for additions and subtractions.
    sums: u32,
    facts: Vec<Ast>,
    /// Operations this close to the formula's surface, which are kept.
    surface: std::collections::HashSet<T>,
    depths: std::collections::HashMap<T, u32>,
    mentioned: Vec<(u16, u128)>,
    /// The operations left open in the current formula.
    open: Vec<(T, Ast)>,
    ints: Vec<(bool, u16, u16, Ast, Ast)>,
    nvars_asserted: usize,
    pub rlimit: u32,
    pub dump: Option<String>,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            for (k, v) in [("memory_max_size", "6000")] {
                Z3_global_param_set(cs(k).as_ptr(), cs(v).as_ptr());
            }
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(err_handler));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let me = Solver { c, s, bv: vec![], bv2: vec![], narrow: false, fp: vec![], level: None, sums: 0, facts: vec![], surface: Default::default(), mentioned: vec![], open: vec![], ints: vec![], depths: Default::default(), nvars_asserted: 0, rlimit, dump: None };
            me.limits(s, rlimit);
            me
        }
    }
    fn limits(&self, s: P, rl: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("rlimit").as_ptr()), rl);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("random_seed").as_ptr()), 0);
            Z3_solver_set_params(self.c, s, p);
            let _ = Z3_get_error_code(self.c);
        }
    }
    pub fn errcheck(&self, what: &str) {
        unsafe {
            let e = Z3_get_error_code(self.c);
            if e != 0 {
                let m = CStr::from_ptr(Z3_get_error_msg(self.c, e)).to_string_lossy().to_string();
                panic!("z3 error in {}: {}", what, m);
            }
        }
    }
    fn r(&self, a: Ast) -> Ast {
        unsafe {
            if a.is_null() {
                let e = Z3_get_error_code(self.c);
                let m = CStr::from_ptr(Z3_get_error_msg(self.c, e)).to_string_lossy().to_string();
                panic!("z3: {}", m);
            }
            Z3_inc_ref(self.c, a);
        }
        a
    }
    pub fn bvconst(&self, w: u16, v: u128) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 {
                self.r(Z3_mk_unsigned_int64(self.c, v as u64, s))
            } else {
                self.r(Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s))
            }
        }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            self.r(if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) })
        }
    }
    fn rm(&self, k: u128) -> Ast {
        unsafe {
            self.r(match k {
                0 => Z3_mk_fpa_rna(self.c),
                1 => Z3_mk_fpa_rtn(self.c),
                2 => Z3_mk_fpa_rtp(self.c),
                3 => Z3_mk_fpa_rtz(self.c),
                _ => Z3_mk_fpa_rne(self.c),
            })
        }
    }

    /// Translate (children first, iteratively).
    pub fn tr(&mut self, ts: &Terms, t: T) -> Ast {
        if self.bv.len() < ts.n.len() {
            self.bv.resize(ts.n.len(), std::ptr::null_mut());
            self.fp.resize(ts.n.len(), std::ptr::null_mut());
        }
        if !self.bv[t as usize].is_null() {
            return self.bv[t as usize];
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if !self.bv[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = ts.get(x);
            let mut ready = true;
            for y in [n.a, n.b, n.c] {
                if y != NONE && self.bv[y as usize].is_null() {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = self.tr1(ts, x, &n);
            self.bv[x as usize] = a;
            st.pop();
        }
        self.bv[t as usize]
    }

    fn fpt(&mut self, ts: &Terms, t: T) -> Ast {
        if !self.fp[t as usize].is_null() {
            return self.fp[t as usize];
        }
        let n = ts.get(t);
        let c = self.c;
        let fs = self.fsort(n.w);
        if let Some(l) = self.level {
            let cheap = matches!(n.k, K::FAdd | K::FSub | K::SiToF);
            let leave = is_arith(n.k) && !self.surface.contains(&t) || truncated(ts, t).is_some();
            if leave && self.depth(ts, t) > if cheap { l.max(self.sums) } else { l } {
                let a = self.unknown(ts, t, &n, fs);
                self.fp[t as usize] = a;
                return a;
            }
        }
        let a = unsafe {
            match n.k {
                K::FAdd | K::FSub | K::FMul | K::FDiv | K::Fma | K::FSqrt | K::FRound | K::SiToF | K::UiToF | K::FConv | K::FMin | K::FMax => {
                    let rne = self.rm(4);
                    match n.k {
                        K::SiToF => Z3_mk_fpa_to_fp_signed(c, rne, self.bvof(ts, n.a), fs),
                        K::UiToF => Z3_mk_fpa_to_fp_unsigned(c, rne, self.bvof(ts, n.a), fs),
                        _ => {
                            let x = self.fpt(ts, n.a);
                            match n.k {
                                K::FAdd => Z3_mk_fpa_add(c, rne, x, self.fpt(ts, n.b)),
                                K::FSub => Z3_mk_fpa_sub(c, rne, x, self.fpt(ts, n.b)),
                                K::FMul => Z3_mk_fpa_mul(c, rne, x, self.fpt(ts, n.b)),
                                K::FDiv => Z3_mk_fpa_div(c, rne, x, self.fpt(ts, n.b)),
                                K::FMin => Z3_mk_fpa_min(c, x, self.fpt(ts, n.b)),
                                K::FMax => Z3_mk_fpa_max(c, x, self.fpt(ts, n.b)),
                                K::Fma => {
                                    let y = self.fpt(ts, n.b);
                                    let z = self.fpt(ts, n.c);
                                    Z3_mk_fpa_fma(c, rne, x, y, z)
                                }
                                K::FSqrt => Z3_mk_fpa_sqrt(c, rne, x),
                                K::FRound => Z3_mk_fpa_round_to_integral(c, self.rm(n.imm), x),
                                _ => Z3_mk_fpa_to_fp_float(c, rne, x, fs),
                            }
                        }
                    }
                }
                K::Ite if ts.fp[t as usize] => {
                    let cc = self.bv[n.a as usize];
                    let x = self.fpt(ts, n.b);
                    let y = self.fpt(ts, n.c);
                    Z3_mk_ite(c, cc, x, y)
                }
                K::And if ts.as_const(n.b) == Some(m(n.w) >> 1) => Z3_mk_fpa_abs(c, self.fpt(ts, n.a)),
                K::Xor if ts.as_const(n.b) == Some(1u128 << (n.w - 1)) => Z3_mk_fpa_neg(c, self.fpt(ts, n.a)),
                // abs written as a zero-extended low part
                K::ZExt => {
                    let i = ts.get(n.a);
                    if i.k == K::Extract && i.imm == 0 && i.w == n.w - 1 && ts.w(i.a) == n.w {
                        Z3_mk_fpa_abs(c, self.fpt(ts, i.a))
                    } else {
                        Z3_mk_fpa_to_fp_bv(c, self.bv[t as usize], fs)
                    }
                }
                _ => {
                    let b = self.bv[t as usize];
                    Z3_mk_fpa_to_fp_bv(c, b, fs)
                }
            }
        };
        let a = self.r(a);
        self.fp[t as usize] = a;
        a
    }

    /// How many floating-point operations are nested below and at a term.
    fn depth(&mut self, ts: &Terms, t: T) -> u32 {
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.depths.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = ts.get(x);
            let mut ready = true;
            let mut d = 0;
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    match self.depths.get(&y) {
                        Some(k) => d = d.max(*k),
                        None => {
                            st.push(y);
                            ready = false;
                        }
                    }
                }
            }
            if ready {
                self.depths.insert(x, d + is_arith(n.k) as u32);
                st.pop();
            }
        }
        self.depths[&t]
    }
    /// The deepest nesting of floating-point operations in a formula.
    pub fn deepest(&mut self, ts: &Terms, conj: &[T]) -> u32 {
        conj.iter().map(|t| self.depth(ts, *t)).max().unwrap_or(0)
    }
    /// A value about which only a few facts are known: NaN goes in, NaN comes out; the root of a negative number is NaN;
    /// and an operation that is monotone in its only variable operand keeps the order against a few numbers.
    fn unknown(&mut self, ts: &Terms, t: T, n: &Node, fs: P) -> Ast {
        unsafe {
            let c = self.c;
            let v = self.r(Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("abs{}", t)).as_ptr()), fs));
            let trunc = truncated(ts, t);
            let is = self.r(Z3_mk_fpa_is_nan(c, v));
            let mut why = vec![];
            if let Some(y) = trunc {
                // NaN becomes zero
                let x = self.fpt(ts, y);
                let (nx, z) = (self.r(Z3_mk_fpa_is_nan(c, x)), self.r(Z3_mk_fpa_is_zero(c, v)));
                let f = self.implies(nx, z);
                self.facts.push(f);
                why.push(self.r(Z3_mk_false(c)));
            }
            for y in operands(ts, t) {
                if trunc.is_none() {
                    let x = self.fpt(ts, y);
                    why.push(self.r(Z3_mk_fpa_is_nan(c, x)));
                    if n.k == K::FSqrt {
                        let z = self.r(Z3_mk_fpa_to_fp_bv(c, self.bvconst(n.w, 0), fs));
                        why.push(self.r(Z3_mk_fpa_lt(c, x, z)));
                    }
                }
            }
            self.open.push((t, v));
            let w = self.r(Z3_mk_or(c, why.len() as c_uint, why.as_ptr()));
            let f = self.implies(w, is);
            self.facts.push(f);
            let nonzero = |t: T| ts.as_const(t).map_or(false, |b| b << 1 & crate::term::m(n.w) != 0);
            if matches!(n.k, K::FAdd | K::FSub) && (nonzero(n.a) || nonzero(n.b)) || n.k == K::Fma && sizable(ts, n.c) {
                // a sum with a number other than zero that cancels is +0
                let z = [self.r(Z3_mk_fpa_is_zero(c, v)), self.r(Z3_mk_fpa_is_negative(c, v))];
                let z = self.r(Z3_mk_and(c, 2, z.as_ptr()));
                let f = self.r(Z3_mk_not(c, z));
                self.facts.push(f);
            }
            if let Some((y, shape)) = shape(ts, t) {
                let f = self.implies(is, w);
                self.facts.push(f);
                let x = self.fpt(ts, y);
                for p in self.points(ts, y) {
                    let Some(q) = image(ts, t, y, p) else { continue };
                    let sign = p >> (n.w - 1) & 1;
                    let neg = p ^ 1 << (n.w - 1);
                    let num = |me: &Self, b: u128| me.r(Z3_mk_fpa_to_fp_bv(c, me.bvconst(n.w, b), fs));
                    let (pv, nv, qv) = (num(self, p), num(self, neg), num(self, q));
                    let ge = |me: &Self, a: Ast, b: Ast| me.r(Z3_mk_fpa_leq(c, b, a));
                    match shape {
                        Shape::Up | Shape::Down => {
                            let up = if let Shape::Up = shape { ge(self, v, qv) } else { ge(self, qv, v) };
                            let down = if let Shape::Up = shape { ge(self, qv, v) } else { ge(self, v, qv) };
                            let f = self.implies(ge(self, x, pv), up);
                            self.facts.push(f);
                            let f = self.implies(ge(self, pv, x), down);
                            self.facts.push(f);
                        }
                        Shape::Root => {
                            if sign == 0 {
                                let f = self.implies(ge(self, x, pv), ge(self, v, qv));
                                self.facts.push(f);
                            }
                        }
                        Shape::Square => {
                            if sign == 0 {
                                let f = self.implies(ge(self, x, pv), ge(self, v, qv));
                                self.facts.push(f);
                                let f = self.implies(ge(self, nv, x), ge(self, v, qv));
                                self.facts.push(f);
                                let both = [ge(self, x, nv), ge(self, pv, x)];
                                let both = self.r(Z3_mk_and(c, 2, both.as_ptr()));
                                let f = self.implies(both, ge(self, qv, v));
                                self.facts.push(f);
                            }
                        }
                    }
                }
            }
            v
        }
    }
    /// Facts about pairs of open operations: equal operands give equal results, and negated operands negated results,
    /// up to the sign of zero.
    fn relate(&mut self, ts: &Terms) {
        let ints = std::mem::take(&mut self.ints);
        for (i, x) in ints.iter().enumerate() {
            for y in &ints[..i] {
                if (x.0, x.1, x.2) == (y.0, y.1, y.2) {
                    unsafe {
                        let e = self.r(Z3_mk_fpa_eq(self.c, x.3, y.3));
                        let f = self.implies(e, self.r(Z3_mk_eq(self.c, x.4, y.4)));
                        self.facts.push(f);
                    }
                }
            }
        }
        let open = std::mem::take(&mut self.open);
        let mut pairs = 0;
        for i in 0..open.len() {
            for j in 0..i {
                let ((t, u), (t2, u2)) = (open[j], open[i]);
                let (n, n2) = (ts.get(t), ts.get(t2));
                // a difference is a sum with the second operand negated
                let sum = |k: K| if k == K::FSub { K::FAdd } else { k };
                if sum(n.k) != sum(n2.k) || n.w != n2.w || pairs >= 400 || self.depth(ts, t) != self.depth(ts, t2) {
                    continue;
                }
                pairs += 1;
                // (operands of the second in terms of those of the first: which and with which sign; sign of the result)
                let rules: Vec<(Vec<(usize, bool)>, bool)> = match n.k {
                    K::FMul => [(false, false), (false, true), (true, false), (true, true)]
                        .into_iter()
                        .flat_map(|(p, q)| [(vec![(0, p), (1, q)], p != q), (vec![(1, p), (0, q)], p != q)])
                        .collect(),
                    K::FDiv => [(false, false), (false, true), (true, false), (true, true)].into_iter().map(|(p, q)| (vec![(0, p), (1, q)], p != q)).collect(),
                    K::Fma => [(false, false), (false, true), (true, false), (true, true)].into_iter().map(|(p, q)| (vec![(0, p), (1, q), (2, p != q)], p != q)).collect(),
                    K::FAdd | K::FSub => [false, true].into_iter().flat_map(|p| [(vec![(0, p), (1, p)], p), (vec![(1, p), (0, p)], p)]).collect(),
                    K::SiToF => vec![(vec![(0, false)], false), (vec![(0, true)], true)],
                    _ => vec![(vec![(0, false)], false)],
                };
                let a: Vec<Ast> = operands(ts, t).into_iter().map(|x| self.fpt(ts, x)).collect();
                let b: Vec<Ast> = operands(ts, t2).into_iter().map(|x| self.fpt(ts, x)).collect();
                let (a, b) = unsafe {
                    let flip = |me: &Self, k: K, mut v: Vec<Ast>| {
                        if k == K::FSub {
                            v[1] = me.r(Z3_mk_fpa_neg(me.c, v[1]));
                        }
                        v
                    };
                    (flip(self, n.k, a), flip(self, n2.k, b))
                };
                for (args, neg) in rules {
                    unsafe {
                        let c = self.c;
                        let signed = |me: &Self, x: Ast, s: bool| if s { me.r(Z3_mk_fpa_neg(c, x)) } else { x };
                        let mut pre: Vec<Ast> = args.iter().enumerate().map(|(k, (i, s))| self.r(Z3_mk_fpa_eq(c, b[k], signed(self, a[*i], *s)))).collect();
                        if n.k == K::FDiv {
                            let z = self.r(Z3_mk_fpa_is_zero(c, a[1]));
                            let mut ok = vec![self.r(Z3_mk_not(c, z))];
                            if !args[1].1 {
                                ok.push(self.r(Z3_mk_eq(c, a[1], b[1])));
                            }
                            pre.push(self.r(Z3_mk_or(c, ok.len() as c_uint, ok.as_ptr())));
                        }
                        let pre = self.r(Z3_mk_and(c, pre.len() as c_uint, pre.as_ptr()));
                        let eq = self.r(Z3_mk_fpa_eq(c, u2, signed(self, u, neg)));
                        let nan = [self.r(Z3_mk_fpa_is_nan(c, u)), self.r(Z3_mk_fpa_is_nan(c, u2))];
                        let nan = self.r(Z3_mk_and(c, 2, nan.as_ptr()));
                        let post = [eq, nan];
                        let post = self.r(Z3_mk_or(c, 2, post.as_ptr()));
                        let f = self.implies(pre, post);
                        self.facts.push(f);
                    }
                }
            }
        }
    }
    fn implies(&self, a: Ast, b: Ast) -> Ast {
        unsafe {
            let na = self.r(Z3_mk_not(self.c, a));
            let f = [na, b];
            self.r(Z3_mk_or(self.c, 2, f.as_ptr()))
        }
    }
    /// Numbers worth comparing a term with: those the formula mentions, taken through the operations below the term.
    fn points(&mut self, ts: &Terms, t: T) -> Vec<u128> {
        let n = ts.get(t);
        let mut out: Vec<u128> = self.mentioned.iter().filter(|x| x.0 == n.w).map(|x| x.1).collect();
        if is_arith(n.k) || truncated(ts, t).is_some() {
            if let Some((y, _)) = shape(ts, t) {
                for p in self.points(ts, y) {
                    out.extend(image(ts, t, y, p));
                }
            }
        }
        out.sort();
        out.dedup();
        out.truncate(40);
        out
    }
    /// The numbers a formula compares with.
    fn mention(&mut self, ts: &Terms, conj: &[T]) {
        self.mentioned.clear();
        let mut seen = std::collections::HashSet::new();
        let mut st = conj.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = ts.get(x);
            if n.k == K::FCmp {
                for y in [n.a, n.b] {
                    if let Some(b) = ts.as_const(y) {
                        let w = ts.w(y);
                        for b in [b, b ^ 1 << (w - 1), 0] {
                            if finite(w, b) && !self.mentioned.contains(&(w, b)) {
                                self.mentioned.push((w, b));
                            }
                        }
                    }
                }
            }
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    st.push(y);
                }
            }
        }
    }
    /// The operations with fewer than k other operations between them and the formula.
    fn near(&self, ts: &Terms, conj: &[T], k: u32) -> std::collections::HashSet<T> {
        let mut out = std::collections::HashSet::new();
        let mut best: std::collections::HashMap<T, u32> = Default::default();
        let mut st: Vec<(T, u32)> = conj.iter().map(|t| (*t, 0)).collect();
        while let Some((x, d)) = st.pop() {
            if d >= k || best.get(&x).map_or(false, |b| *b <= d) {
                continue;
            }
            best.insert(x, d);
            let n = ts.get(x);
            let e = if is_arith(n.k) {
                out.insert(x);
                d + 1
            } else {
                d
            };
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    st.push((y, e));
                }
            }
        }
        out
    }
    /// Tries to show a formula unsatisfiable with deep floating-point operations left open.
    pub fn check_abstract(&mut self, ts: &Terms, conj: &[T], level: u32, sums: u32, top: u32, rlimit: u32) -> bool {
        self.sums = sums;
        self.surface = self.near(ts, conj, top);
        let bv = std::mem::take(&mut self.bv);
        let fp = std::mem::take(&mut self.fp);
        self.level = Some(level);
        self.mention(ts, conj);
        let asts: Vec<Ast> = conj.iter().map(|t| self.tr(ts, *t)).collect();
        self.relate(ts);
        let r = unsafe {
            let s = Z3_mk_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            self.limits(s, rlimit);
            self.var_ranges(ts, ts.vars.len(), s);
            for a in asts.iter().chain(self.facts.iter()) {
                Z3_solver_assert(self.c, s, *a);
            }
            let r = Z3_solver_check(self.c, s);
            let _ = Z3_get_error_code(self.c);
            Z3_solver_dec_ref(self.c, s);
            r == -1
        };
        self.level = None;
        self.surface.clear();
        self.facts.clear();
        self.open.clear();
        self.ints.clear();
        self.bv = bv;
        self.fp = fp;
        r
    }

    fn bvof(&self, ts: &Terms, t: T) -> Ast {
        // bit-vector form even of 1-bit (Bool) terms
        let a = self.bv[t as usize];
        if ts.w(t) == 1 {
            unsafe { self.r(Z3_mk_ite(self.c, a, self.bvconst(1, 1), self.bvconst(1, 0))) }
        } else {
            a
        }
    }

    fn tr1(&mut self, ts: &Terms, x: T, n: &Node) -> Ast {
        let c = self.c;
        let g = |s: &Self, t: T| s.bv[t as usize];
        unsafe {
            let a = match n.k {
                K::Const => {
                    if n.w == 1 {
                        if n.imm != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.bvconst(n.w, n.imm)
                    }
                }
                K::Var => {
                    let s = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as c_uint) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("v{}", n.imm)).as_ptr()), s)
                }
                K::Add | K::Sub | K::Mul | K::UDiv | K::URem | K::SDiv | K::SRem | K::Shl | K::LShr | K::AShr if n.w > 1 => {
                    let (p, q) = (g(self, n.a), g(self, n.b));
                    // narrow multiplications/divisions whose operands are known to be small
                    let (ha, hb) = (ts.rng[n.a as usize].1, ts.rng[n.b as usize].1);
                    let need = match n.k {
                        K::Mul => match ha.checked_mul(hb) {
                            Some(h) => bits(h) as u16,
                            None => n.w,
                        },
                        K::UDiv | K::URem => bits(ha).max(bits(hb)) as u16,
                        _ => n.w,
                    }
                    .max(1);
                    let sbits = |t: T| {
                        let (l, h) = ts.srng[t as usize];
                        let l = if l < 0 { 129 - (!l).leading_zeros() } else { 1 };
                        let h = if h >= 0 { 129 - h.leading_zeros() } else { 1 };
                        l.max(h) as u16
                    };
                    let sneed = match n.k {
                        K::Add | K::Sub | K::Mul | K::SDiv | K::SRem if n.w <= 64 && self.narrow => sbits(n.a).max(sbits(n.b)).max(sbits(x)) + matches!(n.k, K::SDiv) as u16,
                        _ => n.w,
                    };
                    if sneed < n.w && (need >= n.w || !matches!(n.k, K::Mul)) {
                        let p2 = self.r(Z3_mk_extract(c, sneed as u32 - 1, 0, p));
                        let q2 = self.r(Z3_mk_extract(c, sneed as u32 - 1, 0, q));
                        let r = match n.k {
                            K::Add => Z3_mk_bvadd(c, p2, q2),
                            K::Sub => Z3_mk_bvsub(c, p2, q2),
                            K::Mul => Z3_mk_bvmul(c, p2, q2),
                            K::SDiv => Z3_mk_bvsdiv(c, p2, q2),
                            _ => Z3_mk_bvsrem(c, p2, q2),
                        };
                        let r = self.r(r);
                        Z3_mk_sign_ext(c, (n.w - sneed) as c_uint, r)
                    } else if need < n.w && matches!(n.k, K::Mul | K::UDiv | K::URem) {
                        let p2 = Z3_mk_extract(c, need as u32 - 1, 0, p);
                        let p2 = self.r(p2);
                        let q2 = self.r(Z3_mk_extract(c, need as u32 - 1, 0, q));
                        let r = match n.k {
                            K::Mul => Z3_mk_bvmul(c, p2, q2),
                            K::UDiv => Z3_mk_bvudiv(c, p2, q2),
                            _ => Z3_mk_bvurem(c, p2, q2),
                        };
                        let r = self.r(r);
                        Z3_mk_zero_ext(c, (n.w - need) as c_uint, r)
                    } else {
                        match n.k {
                            K::Add => Z3_mk_bvadd(c, p, q),
                            K::Sub => Z3_mk_bvsub(c, p, q),
                            K::Mul => Z3_mk_bvmul(c, p, q),
                            K::UDiv => Z3_mk_bvudiv(c, p, q),
                            K::URem => Z3_mk_bvurem(c, p, q),
                            K::SDiv => Z3_mk_bvsdiv(c, p, q),
                            K::SRem => Z3_mk_bvsrem(c, p, q),
                            K::Shl => Z3_mk_bvshl(c, p, q),
                            K::LShr => Z3_mk_bvlshr(c, p, q),
                            _ => Z3_mk_bvashr(c, p, q),
                        }
                    }
                }
                // one-bit arithmetic
                K::Add | K::Sub => Z3_mk_xor(c, g(self, n.a), g(self, n.b)),
                K::Mul => Z3_mk_and(c, 2, [g(self, n.a), g(self, n.b)].as_ptr()),
                K::UDiv | K::SDiv | K::Shl | K::LShr | K::AShr | K::URem | K::SRem => panic!("1-bit {:?}", n.k),
                K::And => {
                    if n.w == 1 {
                        Z3_mk_and(c, 2, [g(self, n.a), g(self, n.b)].as_ptr())
                    } else {
                        Z3_mk_bvand(c, g(self, n.a), g(self, n.b))
                    }
                }
                K::Or => {
                    if n.w == 1 {
                        Z3_mk_or(c, 2, [g(self, n.a), g(self, n.b)].as_ptr())
                    } else {
                        Z3_mk_bvor(c, g(self, n.a), g(self, n.b))
                    }
                }
                K::Xor => {
                    if n.w == 1 {
                        if ts.as_const(n.b) == Some(1) {
                            Z3_mk_not(c, g(self, n.a))
                        } else {
                            Z3_mk_xor(c, g(self, n.a), g(self, n.b))
                        }
                    } else {
                        Z3_mk_bvxor(c, g(self, n.a), g(self, n.b))
                    }
                }
                K::Concat => {
                    let h = self.bvof(ts, n.a);
                    let l = self.bvof(ts, n.b);
                    Z3_mk_concat(c, h, l)
                }
                K::Extract => {
                    let lo = n.imm as c_uint;
                    let e = self.r(Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, g(self, n.a)));
                    if n.w == 1 {
                        Z3_mk_eq(c, e, self.bvconst(1, 1))
                    } else {
                        e
                    }
                }
                K::ZExt => {
                    if ts.w(n.a) == 1 {
                        Z3_mk_ite(c, g(self, n.a), self.bvconst(n.w, 1), self.bvconst(n.w, 0))
                    } else {
                        Z3_mk_zero_ext(c, (n.w - ts.w(n.a)) as c_uint, g(self, n.a))
                    }
                }
                K::SExt => {
                    if ts.w(n.a) == 1 {
                        Z3_mk_ite(c, g(self, n.a), self.bvconst(n.w, m(n.w)), self.bvconst(n.w, 0))
                    } else {
                        Z3_mk_sign_ext(c, (n.w - ts.w(n.a)) as c_uint, g(self, n.a))
                    }
                }
                K::Ite => {
                    if ts.fp[x as usize] && (n.w == 32 || n.w == 64) && is_fp_valued(ts, n.b) && is_fp_valued(ts, n.c) {
                        let f = self.fpt(ts, x);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    } else {
                        Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c))
                    }
                }
                K::Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                K::Ult => Z3_mk_bvult(c, g(self, n.a), g(self, n.b)),
                K::Ule => Z3_mk_bvule(c, g(self, n.a), g(self, n.b)),
                K::Slt => Z3_mk_bvslt(c, g(self, n.a), g(self, n.b)),
                K::Sle => Z3_mk_bvsle(c, g(self, n.a), g(self, n.b)),
                K::FAdd | K::FSub | K::FMul | K::FDiv | K::Fma | K::FSqrt | K::FRound | K::SiToF | K::UiToF | K::FConv | K::FMin
                | K::FMax => {
                    let f = self.fpt(ts, x);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                K::FRem => panic!("frem unsupported in solver"),
                K::FCmp => {
                    let p = self.fpt(ts, n.a);
                    let q = self.fpt(ts, n.b);
                    match n.imm {
                        0 => Z3_mk_fpa_eq(c, p, q),
                        1 => Z3_mk_fpa_lt(c, p, q),
                        2 => Z3_mk_fpa_leq(c, p, q),
                        _ => {
                            let u = self.r(Z3_mk_fpa_is_nan(c, p));
                            let v = self.r(Z3_mk_fpa_is_nan(c, q));
                            Z3_mk_or(c, 2, [u, v].as_ptr())
                        }
                    }
                }
                K::FToSi | K::FToUi => {
                    let signed = n.k == K::FToSi;
                    let fw = ts.w(n.a);
                    let f = self.fpt(ts, n.a);
                    let fs = self.fsort(fw);
                    let w = n.w;
                    // exact powers of two as floats
                    let pow = |e: i32, neg: bool| -> u128 {
                        let v = (2f64).powi(e) * if neg { -1.0 } else { 1.0 };
                        if fw == 32 {
                            (v as f32).to_bits() as u128
                        } else {
                            v.to_bits() as u128
                        }
                    };
                    let (lo, hi, minv, maxv) = if signed {
                        (pow(w as i32 - 1, true), pow(w as i32 - 1, false), 1u128 << (w - 1), m(w) >> 1)
                    } else {
                        (0u128, pow(w as i32, false), 0, m(w))
                    };
                    let mkf = |v: u128| self.r(Z3_mk_fpa_to_fp_bv(c, self.bvconst(fw, v), fs));
                    let lo_f = mkf(lo);
                    let hi_f = mkf(hi);
                    let nan = self.r(Z3_mk_fpa_is_nan(c, f));
                    let under = self.r(if signed { Z3_mk_fpa_lt(c, f, lo_f) } else { Z3_mk_fpa_leq(c, f, lo_f) });
                    let over = self.r(Z3_mk_fpa_leq(c, hi_f, f));
                    let open = match self.level {
                        Some(l) => self.depth(ts, n.a) > l.max(self.sums),
                        None => false,
                    };
                    let cv = if open {
                        // any integer, the same for the same number
                        let v = self.r(Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("int{}", self.ints.len())).as_ptr()), self.r(Z3_mk_bv_sort(c, w as c_uint))));
                        self.ints.push((signed, w, fw, f, v));
                        v
                    } else if signed {
                        self.r(Z3_mk_fpa_to_sbv(c, self.rm(3), f, w as c_uint))
                    } else {
                        self.r(Z3_mk_fpa_to_ubv(c, self.rm(3), f, w as c_uint))
                    };
                    let i1 = self.r(Z3_mk_ite(c, over, self.bvconst(w, maxv), cv));
                    let i2 = self.r(Z3_mk_ite(c, under, self.bvconst(w, minv), i1));
                    Z3_mk_ite(c, nan, self.bvconst(w, 0), i2)
                }
                K::Uf => {
                    let mut args = vec![];
                    let mut sorts = vec![];
                    for y in [n.a, n.b, n.c] {
                        if y != NONE {
                            args.push(self.bvof(ts, y));
                            sorts.push(Z3_mk_bv_sort(c, ts.w(y) as c_uint));
                        }
                    }
                    let nm = format!("uf{}_{}", n.imm, args.len());
                    let f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, cs(&nm).as_ptr()), args.len() as c_uint, sorts.as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint));
                    Z3_mk_app(c, f, args.len() as c_uint, args.as_ptr())
                }
            };
            self.r(a)
        }
    }

    fn var_ranges(&mut self, ts: &Terms, upto: usize, s: P) {
        for i in 0..upto {
            let v = &ts.vars[i];
            if v.w > 1 {
                let a = self.tr(ts, v.term);
                unsafe {
                    if v.lo > 0 {
                        let l = self.bvconst(v.w, v.lo);
                        Z3_solver_assert(self.c, s, self.r(Z3_mk_bvule(self.c, l, a)));
                    }
                    if v.hi < m(v.w) {
                        let h = self.bvconst(v.w, v.hi);
                        Z3_solver_assert(self.c, s, self.r(Z3_mk_bvule(self.c, a, h)));
                    }
                }
            }
        }
    }

    fn sync_vars(&mut self, ts: &Terms) {
        let k = self.nvars_asserted;
        if k < ts.vars.len() {
            for i in k..ts.vars.len() {
                let v = ts.vars[i].clone();
                if v.w > 1 {
                    let a = self.tr(ts, v.term);
                    unsafe {
                        if v.lo > 0 {
                            let l = self.bvconst(v.w, v.lo);
                            Z3_solver_assert(self.c, self.s, self.r(Z3_mk_bvule(self.c, l, a)));
                        }
                        if v.hi < m(v.w) {
                            let h = self.bvconst(v.w, v.hi);
                            Z3_solver_assert(self.c, self.s, self.r(Z3_mk_bvule(self.c, a, h)));
                        }
                    }
                }
            }
            self.nvars_asserted = ts.vars.len();
        }
    }

    /// Add a conjunct of the path condition to the incremental solver.
    pub fn assert(&mut self, ts: &Terms, t: T) {
        self.sync_vars(ts);
        let a = self.tr(ts, t);
        unsafe { Z3_solver_assert(self.c, self.s, a) };
    }

    pub fn check_inc(&mut self, ts: &Terms, t: T) -> Res {
        self.sync_vars(ts);
        let a = self.tr(ts, t);
        unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => Res::Sat(self.model(ts, self.s)),
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let _ = Z3_get_error_code(self.c);
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }

    /// For small domains: signed operations are translated at the width their operands need.
    pub fn check_narrow(&mut self, ts: &Terms, conj: &[T], tactic: &str, rlimit: u32) -> Res {
        std::mem::swap(&mut self.bv, &mut self.bv2);
        self.narrow = true;
        let r = self.check_once(ts, conj, tactic, rlimit);
        self.narrow = false;
        std::mem::swap(&mut self.bv, &mut self.bv2);
        r
    }
    pub fn check_once(&mut self, ts: &Terms, conj: &[T], tactic: &str, rlimit: u32) -> Res {
        unsafe {
            let s = if tactic.is_empty() {
                Z3_mk_solver(self.c)
            } else {
                let t = Z3_mk_tactic(self.c, cs(tactic).as_ptr());
                if t.is_null() {
                    Z3_mk_solver(self.c)
                } else {
                    Z3_tactic_inc_ref(self.c, t);
                    Z3_mk_solver_from_tactic(self.c, t)
                }
            };
            Z3_solver_inc_ref(self.c, s);
            self.limits(s, rlimit);
            self.var_ranges(ts, ts.vars.len(), s);
            for t in conj {
                let a = self.tr(ts, *t);
                Z3_solver_assert(self.c, s, a);
            }
            if let Some(d) = &self.dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(d, txt);
            }
            let r = Z3_solver_check(self.c, s);
            let out = match r {
                1 => Res::Sat(self.model(ts, s)),
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let _ = Z3_get_error_code(self.c);
            Z3_solver_dec_ref(self.c, s);
            out
        }
    }

    unsafe fn model(&mut self, ts: &Terms, s: P) -> Vec<u128> {
        let mdl = Z3_solver_get_model(self.c, s);
        Z3_model_inc_ref(self.c, mdl);
        let mut v = vec![0u128; ts.vars.len()];
        for i in 0..ts.vars.len() {
            let t = ts.vars[i].term;
            let a = self.tr(ts, t);
            let mut out: Ast = std::ptr::null_mut();
            if Z3_model_eval(self.c, mdl, a, true, &mut out) && !out.is_null() {
                Z3_inc_ref(self.c, out);
                if ts.vars[i].w == 1 {
                    v[i] = (Z3_get_bool_value(self.c, out) == 1) as u128;
                } else {
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().to_string();
                    v[i] = s.parse().unwrap_or(ts.vars[i].lo);
                }
            }
        }
        Z3_model_dec_ref(self.c, mdl);
        v
    }

    // ---- real-valued terms (used by ring_* intrinsics and the accuracy analysis) ----
    pub fn real_var(&self, name: &str) -> Ast {
        unsafe { self.r(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(name).as_ptr()), Z3_mk_real_sort(self.c))) }
    }
    pub fn real_num(&self, s: &str) -> Ast {
        unsafe { self.r(Z3_mk_numeral(self.c, cs(s).as_ptr(), Z3_mk_real_sort(self.c))) }
    }
    pub fn real_op(&self, op: u8, a: Ast, b: Ast) -> Ast {
        unsafe {
            let ab = [a, b];
            self.r(match op {
                b'+' => Z3_mk_add(self.c, 2, ab.as_ptr()),
                b'-' => Z3_mk_sub(self.c, 2, ab.as_ptr()),
                b'*' => Z3_mk_mul(self.c, 2, ab.as_ptr()),
                b'/' => Z3_mk_div(self.c, a, b),
                b'<' => Z3_mk_lt(self.c, a, b),
                b'l' => Z3_mk_le(self.c, a, b),
                b'=' => Z3_mk_eq(self.c, a, b),
                _ => panic!("real_op"),
            })
        }
    }
    pub fn real_uf(&self, name: &str, args: &[Ast]) -> Ast {
        unsafe {
            let rs = Z3_mk_real_sort(self.c);
            let sorts = vec![rs; args.len()];
            let f = Z3_mk_func_decl(
                self.c,
                Z3_mk_string_symbol(self.c, cs(&format!("{}/{}", name, args.len())).as_ptr()),
                args.len() as c_uint,
                sorts.as_ptr(),
                rs,
            );
            self.r(Z3_mk_app(self.c, f, args.len() as c_uint, args.as_ptr()))
        }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { self.r(Z3_mk_not(self.c, a)) }
    }
    pub fn simplify(&self, a: Ast) -> Ast {
        unsafe { self.r(Z3_simplify(self.c, a)) }
    }
    pub fn show(&self, a: Ast) -> String {
        unsafe { CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().to_string() }
    }
    /// Check a conjunction of Boolean asts; 1 sat, -1 unsat, 0 unknown; and values of the given reals when sat.
    pub fn check_real(&self, conj: &[Ast], tactic: &str, rlimit: u32, vals: &[Ast]) -> (i32, Vec<String>) {
        unsafe {
            let s = if tactic.is_empty() {
                Z3_mk_solver(self.c)
            } else {
                let t = Z3_mk_tactic(self.c, cs(tactic).as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                Z3_mk_solver_from_tactic(self.c, t)
            };
            Z3_solver_inc_ref(self.c, s);
            self.limits(s, rlimit);
            for a in conj {
                Z3_solver_assert(self.c, s, *a);
            }
            let r = Z3_solver_check(self.c, s);
            let mut out = vec![];
            if r == 1 {
                let mdl = Z3_solver_get_model(self.c, s);
                if !mdl.is_null() {
                    Z3_model_inc_ref(self.c, mdl);
                    for v in vals {
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.c, mdl, *v, true, &mut o) && !o.is_null() {
                            Z3_inc_ref(self.c, o);
                            out.push(CStr::from_ptr(Z3_ast_to_string(self.c, o)).to_string_lossy().to_string());
                        } else {
                            out.push("?".into());
                        }
                    }
                    Z3_model_dec_ref(self.c, mdl);
                }
            }
            let _ = Z3_get_error_code(self.c);
            Z3_solver_dec_ref(self.c, s);
            (r, out)
        }
    }
    #[allow(dead_code)]
    fn unused(&self) {
        unsafe {
            let _ = (Z3_mk_int_sort(self.c), Z3_mk_power(self.c, std::ptr::null_mut(), std::ptr::null_mut()));
        }
    }
}

/// The operand of a conversion to an integer and back in the same format: an odd function, as the largest integer
/// becomes the power of two above it.
fn truncated(ts: &Terms, t: T) -> Option<T> {
    let n = ts.get(t);
    if n.k != K::SiToF {
        return None;
    }
    let i = ts.get(n.a);
    if i.k == K::FToSi && i.w >= n.w && ts.w(i.a) == n.w {
        Some(i.a)
    } else {
        None
    }
}
/// The floating-point operands of an operation.
fn operands(ts: &Terms, t: T) -> Vec<T> {
    let n = ts.get(t);
    match truncated(ts, t) {
        Some(a) => vec![a],
        None => [n.a, n.b, n.c].into_iter().filter(|x| *x != NONE).collect(),
    }
}
/// A number so large that what is left of it after subtracting a nearby product cannot underflow.
fn sizable(ts: &Terms, t: T) -> bool {
    match ts.as_const(t) {
        Some(b) if ts.w(t) == 32 => f32::from_bits(b as u32).abs() > 1e-27,
        Some(b) => f64::from_bits(b as u64).abs() > 1e-27,
        None => false,
    }
}
/// How an operation depends on its only variable operand.
#[derive(Clone, Copy)]
enum Shape {
    Up,
    Down,
    Root,
    Square,
}
/// The only variable operand of an operation and how the result depends on it, where that is monotone (or even).
/// The constants are finite, and the factors not zero, so that the result is NaN only if the operand is.
fn shape(ts: &Terms, t: T) -> Option<(T, Shape)> {
    let n = &ts.get(t);
    let num = |t: T| ts.as_const(t).filter(|b| finite(n.w, *b));
    let factor = |t: T| num(t).filter(|b| b << 1 & crate::term::m(n.w) != 0).map(|b| if b >> (n.w - 1) & 1 == 1 { Shape::Down } else { Shape::Up });
    match n.k {
        K::FAdd => match (num(n.a), num(n.b)) {
            (None, Some(_)) => Some((n.a, Shape::Up)),
            (Some(_), None) => Some((n.b, Shape::Up)),
            _ => None,
        },
        K::FSub => match (num(n.a), num(n.b)) {
            (None, Some(_)) => Some((n.a, Shape::Up)),
            (Some(_), None) => Some((n.b, Shape::Down)),
            _ => None,
        },
        K::FMul if n.a == n.b => Some((n.a, Shape::Square)),
        K::Fma if n.a == n.b && num(n.c).is_some() => Some((n.a, Shape::Square)),
        K::FMul | K::Fma if n.k == K::FMul || num(n.c).is_some() => match (num(n.a), num(n.b)) {
            (None, Some(_)) => factor(n.b).map(|s| (n.a, s)),
            (Some(_), None) => factor(n.a).map(|s| (n.b, s)),
            _ => None,
        },
        K::Fma if num(n.a).is_some() && num(n.b).is_some() => Some((n.c, Shape::Up)),
        K::FDiv => factor(n.b).map(|s| (n.a, s)),
        K::FSqrt => Some((n.a, Shape::Root)),
        K::SiToF => truncated(ts, t).map(|a| (a, Shape::Up)),
        _ => None,
    }
    .filter(|(y, _)| ts.as_const(*y).is_none())
}
fn finite(w: u16, b: u128) -> bool {
    if w == 32 {
        f32::from_bits(b as u32).is_finite()
    } else {
        f64::from_bits(b as u64).is_finite()
    }
}
/// The value of an operation where its operand y has value p.
fn image(ts: &Terms, t: T, y: T, p: u128) -> Option<u128> {
    let n = ts.get(t);
    let v = |x: T| if x == y { p } else if x == NONE { 0 } else { ts.as_const(x).unwrap_or(0) };
    if truncated(ts, t).is_some() {
        let i = ts.get(n.a);
        let k = crate::term::eval_node(&i, n.w, n.w, p, 0, 0);
        return Some(crate::term::eval_node(&n, i.w, i.w, k, 0, 0));
    }
    let q = crate::term::eval_node(&n, n.w, n.w, v(n.a), v(n.b), v(n.c));
    let w = ts.w(t);
    let nan = if w == 32 { f32::from_bits(q as u32).is_nan() } else { f64::from_bits(q as u64).is_nan() };
    if nan {
        None
    } else {
        Some(q)
    }
}

fn is_arith(k: K) -> bool {
    matches!(k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::Fma | K::FSqrt)
}

fn is_fp_valued(ts: &Terms, t: T) -> bool {
    let n = ts.get(t);
    matches!(
        n.k,
        K::FAdd | K::FSub | K::FMul | K::FDiv | K::Fma | K::FSqrt | K::FRound | K::SiToF | K::UiToF | K::FConv | K::FMin | K::FMax
    ) || (n.k == K::Ite && ts.fp[t as usize] && is_fp_valued(ts, n.b) && is_fp_valued(ts, n.c))
}
