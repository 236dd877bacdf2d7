//! Models of external functions, LLVM intrinsics, panics and harness intrinsics.
use crate::exec::*;
use crate::ir::*;
use crate::mem::Ld;
use crate::term::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use crate::solver::Ast;

macro_rules! kinds {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(u16)]
        pub enum Hk { None = 0, $($n),* }
        const ALL: &[Hk] = &[Hk::None, $(Hk::$n),*];
    };
}
kinds!(
    Nop, Zero, Malloc, Calloc, Free, Realloc, PosixMemalign, Memcpy, Memset, Memcmp, Strlen, Getenv, Abort, Errno, Write, Syscall,
    UMin, UMax, SMin, SMax, UAddSat, USubSat, SAddSat, SSubSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, SCmp, UCmp, Ctlz, Cttz, Ctpop,
    BitReverse, Bswap, Fshl, Fshr, Abs, FpClass, FpToSiSat, FpToUiSat, Tls, Ident, IsConst, AddCarry, SubBorrow,
    FAbs, FSqrt, FFloor, FCeil, FTrunc, FRound, FRoundEven, Fma, FMulAdd, CopySign, FMin, FMax, LibM1, LibM2, PowI,
    PanicFmt, PanicOther, Print, Getrandom, False, VReduce,
    SymU64, SymChoose, SymAssume, SymAssert, SymReach, SymNote, SymConc, SymNoPanic, SymReplaying, SymPrinted, EPrint, SymNoteV,
    RVar, RConst, RBin, RUf, RAssertEq, REq, SymEnd, SymModel, SymUf, KeyCreate, Log2, Exp2, Ln, Exp, Log10, Sin, Cos, Tan, Pow, Atan2,
);

impl Eng {
    pub fn init_hooks(&mut self) {
        for i in 0..self.m.fns.len() {
            let n = &self.m.fns[i].name;
            let k = if n.contains("4core9panicking9panic_fmt") || n.contains("3std9panicking11begin_panic") && n.starts_with("_RINv") {
                Hk::PanicFmt
            } else if n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("18handle_alloc_error")
                || n.ends_with("rust_begin_unwind")
                || n.contains("9panicking26panic_nounwind_nobacktrace")
                || n.contains("3std7process5abort")
                || n.contains("14abort_internal")
                || n.contains("3std7process4exit")
            {
                Hk::PanicOther
            } else if n.contains("3std2io5stdio6__print") {
                Hk::Print
            } else if n.contains("3std2io5stdio7__eprint") {
                Hk::EPrint
            } else {
                Hk::None
            };
            self.fn_kind[i] = k as u16;
        }
    }

    pub fn classify(&self, n: &str) -> u16 {
        let k = match n {
            "malloc" => Hk::Malloc,
            "calloc" => Hk::Calloc,
            "free" => Hk::Free,
            "realloc" => Hk::Realloc,
            "posix_memalign" => Hk::PosixMemalign,
            "memcpy" | "memmove" => Hk::Memcpy,
            "memset" => Hk::Memset,
            "bcmp" | "memcmp" => Hk::Memcmp,
            "strlen" => Hk::Strlen,
            "getenv" => Hk::Getenv,
            "abort" | "llvm.trap" | "exit" => Hk::Abort,
            "__errno_location" => Hk::Errno,
            "write" | "writev" => Hk::Write,
            "syscall" => Hk::Syscall,
            "getrandom" => Hk::Getrandom,
            "pthread_key_create" => Hk::KeyCreate,
            "__cxa_thread_atexit_impl" | "gettid" | "pthread_setspecific" | "pthread_self" | "pthread_key_delete" => Hk::Zero,
            "sym_u64" => Hk::SymU64,
            "sym_choose" => Hk::SymChoose,
            "sym_assume" => Hk::SymAssume,
            "sym_assert" => Hk::SymAssert,
            "sym_reach" => Hk::SymReach,
            "sym_note" => Hk::SymNote,
            "sym_note_v" => Hk::SymNoteV,
            "sym_concretize" => Hk::SymConc,
            "sym_nopanic" => Hk::SymNoPanic,
            "sym_replaying" => Hk::SymReplaying,
            "sym_printed" => Hk::SymPrinted,
            "sym_end" => Hk::SymEnd,
            "sym_model" => Hk::SymModel,
            "sym_uf" => Hk::SymUf,
            "r_var" => Hk::RVar,
            "r_const" => Hk::RConst,
            "r_bin" => Hk::RBin,
            "r_uf" => Hk::RUf,
            "r_assert_eq" => Hk::RAssertEq,
            "r_eq" => Hk::REq,
            "fabs" | "fabsf" => Hk::FAbs,
            "sqrt" | "sqrtf" => Hk::FSqrt,
            "floor" | "floorf" => Hk::FFloor,
            "ceil" | "ceilf" => Hk::FCeil,
            "trunc" | "truncf" => Hk::FTrunc,
            "round" | "roundf" => Hk::FRound,
            "fma" | "fmaf" => Hk::Fma,
            "exp" | "expf" => Hk::Exp,
            "log" | "logf" => Hk::Ln,
            "sin" | "sinf" => Hk::Sin,
            "cos" | "cosf" => Hk::Cos,
            "tan" | "tanf" => Hk::Tan,
            "log2" | "log2f" => Hk::Log2,
            "exp2" | "exp2f" => Hk::Exp2,
            "log10" | "log10f" => Hk::Log10,
            "pow" | "powf" => Hk::Pow,
            "atan2" | "atan2f" => Hk::Atan2,
            _ => Hk::None,
        };
        if k != Hk::None {
            return k as u16;
        }
        let Some(l) = n.strip_prefix("llvm.") else { return 0 };
        let has = |p: &str| l.starts_with(p);
        let k = if has("lifetime") || has("assume") || has("experimental.noalias") || has("dbg") || has("prefetch") || has("x86.sse2.pause") || has("invariant") {
            Hk::Nop
        } else if has("memcpy") || has("memmove") {
            Hk::Memcpy
        } else if has("memset") {
            Hk::Memset
        } else if has("umin.") {
            Hk::UMin
        } else if has("umax.") {
            Hk::UMax
        } else if has("smin.") {
            Hk::SMin
        } else if has("smax.") {
            Hk::SMax
        } else if has("uadd.sat") {
            Hk::UAddSat
        } else if has("usub.sat") {
            Hk::USubSat
        } else if has("sadd.sat") {
            Hk::SAddSat
        } else if has("ssub.sat") {
            Hk::SSubSat
        } else if has("uadd.with") {
            Hk::UAddO
        } else if has("usub.with") {
            Hk::USubO
        } else if has("umul.with") {
            Hk::UMulO
        } else if has("sadd.with") {
            Hk::SAddO
        } else if has("ssub.with") {
            Hk::SSubO
        } else if has("smul.with") {
            Hk::SMulO
        } else if has("scmp") {
            Hk::SCmp
        } else if has("ucmp") {
            Hk::UCmp
        } else if has("ctlz") {
            Hk::Ctlz
        } else if has("cttz") {
            Hk::Cttz
        } else if has("ctpop") {
            Hk::Ctpop
        } else if has("bitreverse") {
            Hk::BitReverse
        } else if has("bswap") {
            Hk::Bswap
        } else if has("fshl") {
            Hk::Fshl
        } else if has("fshr") {
            Hk::Fshr
        } else if has("abs.") {
            Hk::Abs
        } else if has("is.fpclass") {
            Hk::FpClass
        } else if has("fptosi.sat") {
            Hk::FpToSiSat
        } else if has("fptoui.sat") {
            Hk::FpToUiSat
        } else if has("threadlocal.address") {
            Hk::Tls
        } else if has("expect") || has("launder") || has("strip") || has("ptrmask") {
            Hk::Ident
        } else if has("is.constant") {
            Hk::IsConst
        } else if has("x86.addcarry.64") {
            Hk::AddCarry
        } else if has("x86.subborrow.64") {
            Hk::SubBorrow
        } else if has("fabs.") {
            Hk::FAbs
        } else if has("sqrt.") {
            Hk::FSqrt
        } else if has("floor.") {
            Hk::FFloor
        } else if has("ceil.") {
            Hk::FCeil
        } else if has("trunc.") {
            Hk::FTrunc
        } else if has("round.") {
            Hk::FRound
        } else if has("roundeven.") || has("rint.") || has("nearbyint.") {
            Hk::FRoundEven
        } else if has("fma.") || has("fmuladd.") {
            Hk::Fma
        } else if has("copysign.") {
            Hk::CopySign
        } else if has("minnum.") || has("minimumnum.") {
            Hk::FMin
        } else if has("maxnum.") || has("maximumnum.") {
            Hk::FMax
        } else if has("powi.") {
            Hk::PowI
        } else if has("exp2.") {
            Hk::Exp2
        } else if has("log2.") {
            Hk::Log2
        } else if has("exp.") {
            Hk::Exp
        } else if has("log.") {
            Hk::Ln
        } else if has("sin.") {
            Hk::Sin
        } else if has("cos.") {
            Hk::Cos
        } else if has("log10.") {
            Hk::Log10
        } else if has("pow.") {
            Hk::Pow
        } else if has("vector.reduce.") {
            Hk::VReduce
        } else {
            Hk::None
        };
        k as u16
    }

    fn str_arg(&mut self, p: &Val, l: &Val) -> String {
        let a = self.concretize(p, 64) as u64;
        let n = self.concretize(l, 64) as u64;
        let mut b = Vec::with_capacity(n as usize);
        for i in 0..n {
            let v = match self.mem.load(&mut self.ts, a + i, 8, 1) {
                Ld::C(v) => v as u8,
                Ld::S(t) => self.ev(t) as u8,
            };
            b.push(v);
        }
        String::from_utf8_lossy(&b).to_string()
    }
    fn t2(&mut self, args: &[(Ty, Op)], av: &[Val]) -> (T, T, u32) {
        let w = args[0].0.bits() as u32;
        (self.term(&av[0], w), self.term(&av[1], w), w)
    }
    fn minmax(&mut self, p: Pred, args: &[(Ty, Op)], av: &[Val]) -> Val {
        let (n, w) = match &args[0].0 {
            Ty::Vec(n, t) => (*n, t.bits() as u32),
            t => (0, t.bits() as u32),
        };
        self.map2(n, &av[0], &av[1], |e, a, b| {
            let x = e.term(a, w);
            let y = e.term(b, w);
            let c = e.ts.cmp(p, x, y);
            let t = e.ts.ite(c, x, y);
            e.norm(t)
        })
    }
    fn f1(&mut self, k: K, imm: u128, args: &[(Ty, Op)], av: &[Val]) -> Val {
        let (n, w) = match &args[0].0 {
            Ty::Vec(n, t) => (*n, t.bits() as u32),
            t => (0, t.bits() as u32),
        };
        self.map1(n, &av[0], |e, a| {
            let x = e.term(a, w);
            let t = e.ts.funary(k, imm, w as u16, x);
            e.norm(t)
        })
    }
    fn cmp3(&mut self, lt: Pred, args: &[(Ty, Op)], av: &[Val], ret: &Ty) -> Val {
        let (a, b, _) = self.t2(args, av);
        let rw = ret.bits() as u16;
        let l = self.ts.cmp(lt, a, b);
        let e = self.ts.cmp(Pred::Eq, a, b);
        let (m1, z, p1) = (self.ts.cst(rw, m(rw)), self.ts.cst(rw, 0), self.ts.cst(rw, 1));
        let t = self.ts.ite(e, z, p1);
        let t = self.ts.ite(l, m1, t);
        self.norm(t)
    }
    fn sum_bits(&mut self, x: T, w: u32) -> T {
        let mut s = self.ts.cst(w as u16, 0);
        for i in 0..w {
            let b = self.ts.extract(x, i, 1);
            let b = self.ts.zext(b, w as u16);
            s = self.ts.bin(Bin::Add, s, b);
        }
        s
    }
    fn panic_end(&mut self, loc: Option<u64>) -> ! {
        let mut at = String::from("?");
        if let Some(l) = loc {
            if l != 0 && self.mem.valid(l, 24) {
                let p = self.mem.raw(l, 8) as u64;
                let n = self.mem.raw(l + 8, 8) as u64;
                let line = self.mem.raw(l + 16, 4) as u32;
                if n < 400 && self.mem.valid(p, n) {
                    let s: Vec<u8> = (0..n).map(|i| self.mem.raw(p + i, 1) as u8).collect();
                    at = format!("{}:{}", String::from_utf8_lossy(&s).trim_end_matches('\0'), line);
                }
            }
        }
        self.sh.panics.fetch_add(1, SeqCst);
        self.label(&format!("PANIC {}", at.rsplit_once("/src/").map(|x| x.1.to_string()).unwrap_or(at.clone())));
        if at == "?" {
            let tr = self.trace(12);
            self.event(&format!("{{\"ev\":\"panic\",\"at\":\"{}\"}}", esc(&tr)));
        }
        if at.contains("/verif/") || at.starts_with("src/") || at.contains("harness") {
            self.fatal(&format!("harness panicked at {}", at));
        }
        match self.nopanic.clone() {
            Some(l) => {
                self.notes.push(format!("panicked at {}", at));
                self.violation(&l, None);
                self.end()
            }
            None => self.end_path(),
        }
    }

    pub fn hook(&mut self, k: u16, args: &[(Ty, Op)], av: &[Val], ret: &Ty) -> Val {
        let k = ALL[k as usize];
        match k {
            Hk::None => self.fatal("hook none"),
            Hk::Nop => Val::P,
            Hk::Zero | Hk::False => Val::I(0),
            Hk::Malloc => {
                let n = self.concretize(&av[0], 64) as u64;
                Val::I(self.mem.alloc(n, 16))
            }
            Hk::Calloc => {
                let n = self.concretize(&av[0], 64) as u64 * self.concretize(&av[1], 64) as u64;
                let a = self.mem.alloc(n, 16);
                for i in 0..n {
                    self.mem.store(a + i, 0, 1);
                }
                Val::I(a)
            }
            Hk::Free => {
                let a = self.concretize(&av[0], 64) as u64;
                self.mem.free(a);
                Val::P
            }
            Hk::Realloc => {
                let a = self.concretize(&av[0], 64) as u64;
                let n = self.concretize(&av[1], 64) as u64;
                let b = self.mem.alloc(n, 16);
                if a != 0 {
                    let o = self.mem.size_of(a);
                    self.mem.copy(b, a, o.min(n));
                    self.mem.free(a);
                }
                Val::I(b)
            }
            Hk::PosixMemalign => {
                let p = self.concretize(&av[0], 64) as u64;
                let al = self.concretize(&av[1], 64) as u64;
                let n = self.concretize(&av[2], 64) as u64;
                let a = self.mem.alloc(n, al);
                self.mem.store(p, a as u128, 8);
                Val::I(0)
            }
            Hk::Memcpy => {
                let d = self.concretize(&av[0], 64) as u64;
                let s = self.concretize(&av[1], 64) as u64;
                let n = self.concretize(&av[2], 64) as u64;
                if n > 0 && (!self.mem.valid(d, n) || !self.mem.valid(s, n)) {
                    self.fatal(&format!("invalid memcpy {:x} {:x} {}", d, s, n));
                }
                self.mem.copy(d, s, n);
                Val::I(d)
            }
            Hk::Memset => {
                let d = self.concretize(&av[0], 64) as u64;
                let n = self.concretize(&av[2], 64) as u64;
                if n > 0 && !self.mem.valid(d, n) {
                    self.fatal("invalid memset");
                }
                let vw = args[1].0.bits() as u32;
                match &av[1] {
                    Val::S(t) => {
                        let t = if vw > 8 { self.ts.extract(*t, 0, 8) } else { *t };
                        for i in 0..n {
                            self.mem.store_sym(&mut self.ts, d + i, t, 1);
                        }
                    }
                    v => {
                        let b = Self::conc(v).unwrap_or(0) as u8;
                        unsafe { std::ptr::write_bytes(d as *mut u8, b, n as usize) };
                        self.mem.clear(d, n);
                    }
                }
                Val::I(d)
            }
            Hk::Memcmp => {
                let a = self.concretize(&av[0], 64) as u64;
                let b = self.concretize(&av[1], 64) as u64;
                let n = self.concretize(&av[2], 64) as u64;
                if n > 0 && (!self.mem.valid(a, n) || !self.mem.valid(b, n)) {
                    self.fatal("invalid memcmp");
                }
                // result: first difference as -1/1
                let mut r = self.ts.cst(32, 0);
                for i in (0..n).rev() {
                    let x = match self.mem.load(&mut self.ts, a + i, 8, 1) {
                        Ld::C(v) => self.ts.cst(8, v),
                        Ld::S(t) => t,
                    };
                    let y = match self.mem.load(&mut self.ts, b + i, 8, 1) {
                        Ld::C(v) => self.ts.cst(8, v),
                        Ld::S(t) => t,
                    };
                    let e = self.ts.cmp(Pred::Eq, x, y);
                    let l = self.ts.cmp(Pred::Ult, x, y);
                    let (p1, m1) = (self.ts.cst(32, 1), self.ts.cst(32, 0xffff_ffff));
                    let d = self.ts.ite(l, m1, p1);
                    r = self.ts.ite(e, r, d);
                }
                self.norm(r)
            }
            Hk::Strlen => {
                let a = self.concretize(&av[0], 64) as u64;
                Val::I(self.mem.cstr(a).len() as u64)
            }
            Hk::Getenv => Val::I(0),
            Hk::KeyCreate => {
                let a = self.concretize(&av[0], 64) as u64;
                let c = crate::parse::GLOBAL_BASE + 128;
                let k = self.mem.raw(c, 4) + 1;
                self.mem.store(c, k, 4);
                self.mem.store(a, k, 4);
                Val::I(0)
            }
            Hk::Errno => {
                let a = crate::parse::GLOBAL_BASE + 64;
                Val::I(a)
            }
            Hk::Write => {
                let n = self.concretize(&av[2], 64);
                if self.concretize(&av[0], 32) as u32 == 1 {
                    self.printed += 1;
                }
                Val::I(n as u64)
            }
            Hk::Print => {
                self.label("PRINT");
                self.printed += 1;
                Val::P
            }
            Hk::EPrint => Val::P,
            Hk::Getrandom => {
                let a = self.concretize(&av[0], 64) as u64;
                let n = self.concretize(&av[1], 64) as u64;
                for i in 0..n {
                    self.mem.store(a + i, (i * 37 + 11) as u128 & 255, 1);
                }
                Val::I(n)
            }
            Hk::Syscall => {
                let nr = self.concretize(&av[0], 64);
                if nr == 318 {
                    let a = self.concretize(&av[1], 64) as u64;
                    let n = self.concretize(&av[2], 64) as u64;
                    for i in 0..n {
                        self.mem.store(a + i, (i * 37 + 11) as u128 & 255, 1);
                    }
                    return Val::I(n);
                }
                if nr == 186 {
                    return Val::I(1);
                }
                if nr == 202 {
                    return Val::I(0);
                }
                self.fatal(&format!("syscall {}", nr))
            }
            Hk::Abort | Hk::PanicOther => self.panic_end(None),
            Hk::PanicFmt => {
                let l = av.last().and_then(Self::conc).map(|x| x as u64);
                self.panic_end(l)
            }
            Hk::UMin => self.minmax(Pred::Ult, args, av),
            Hk::UMax => self.minmax(Pred::Ugt, args, av),
            Hk::SMin => self.minmax(Pred::Slt, args, av),
            Hk::SMax => self.minmax(Pred::Sgt, args, av),
            Hk::UAddSat => {
                let (a, b, w) = self.t2(args, av);
                let s = self.ts.bin(Bin::Add, a, b);
                let o = self.ts.cmp(Pred::Ult, s, a);
                let mx = self.ts.cst(w as u16, m(w as u16));
                let t = self.ts.ite(o, mx, s);
                self.norm(t)
            }
            Hk::USubSat => {
                let (a, b, w) = self.t2(args, av);
                let s = self.ts.bin(Bin::Sub, a, b);
                let o = self.ts.cmp(Pred::Ult, a, b);
                let z = self.ts.cst(w as u16, 0);
                let t = self.ts.ite(o, z, s);
                self.norm(t)
            }
            Hk::SAddSat | Hk::SSubSat => {
                let (a, b, w) = self.t2(args, av);
                let (xa, xb) = (self.ts.sext(a, w as u16 + 1), self.ts.sext(b, w as u16 + 1));
                let s = self.ts.bin(if k == Hk::SAddSat { Bin::Add } else { Bin::Sub }, xa, xb);
                let mx = m(w as u16) >> 1;
                let hi = self.ts.cst(w as u16 + 1, mx);
                let lo = self.ts.cst(w as u16 + 1, !mx & m(w as u16 + 1));
                let c1 = self.ts.cmp(Pred::Sgt, s, hi);
                let t = self.ts.ite(c1, hi, s);
                let c2 = self.ts.cmp(Pred::Slt, t, lo);
                let t = self.ts.ite(c2, lo, t);
                let t = self.ts.extract(t, 0, w as u16);
                self.norm(t)
            }
            Hk::UAddO | Hk::USubO => {
                let (a, b, _) = self.t2(args, av);
                let (s, o) = if k == Hk::UAddO {
                    let s = self.ts.bin(Bin::Add, a, b);
                    let o = self.ts.cmp(Pred::Ult, s, a);
                    (s, o)
                } else {
                    let s = self.ts.bin(Bin::Sub, a, b);
                    let o = self.ts.cmp(Pred::Ult, a, b);
                    (s, o)
                };
                Val::A(Rc::new(vec![self.norm(s), self.norm(o)]))
            }
            Hk::UMulO => {
                let (a, b, w) = self.t2(args, av);
                let (xa, xb) = (self.ts.zext(a, 2 * w as u16), self.ts.zext(b, 2 * w as u16));
                let p = self.ts.bin(Bin::Mul, xa, xb);
                let lo = self.ts.bin(Bin::Mul, a, b);
                let lim = self.ts.cst(2 * w as u16, m(w as u16));
                let o = self.ts.cmp(Pred::Ugt, p, lim);
                Val::A(Rc::new(vec![self.norm(lo), self.norm(o)]))
            }
            Hk::SAddO | Hk::SSubO => {
                let (a, b, w) = self.t2(args, av);
                let op = if k == Hk::SAddO { Bin::Add } else { Bin::Sub };
                let (xa, xb) = (self.ts.sext(a, w as u16 + 1), self.ts.sext(b, w as u16 + 1));
                let s = self.ts.bin(op, xa, xb);
                let r = self.ts.bin(op, a, b);
                let xr = self.ts.sext(r, w as u16 + 1);
                let o = self.ts.cmp(Pred::Ne, s, xr);
                Val::A(Rc::new(vec![self.norm(r), self.norm(o)]))
            }
            Hk::SMulO => {
                let (a, b, w) = self.t2(args, av);
                let (xa, xb) = (self.ts.sext(a, 2 * w as u16), self.ts.sext(b, 2 * w as u16));
                let p = self.ts.bin(Bin::Mul, xa, xb);
                let r = self.ts.bin(Bin::Mul, a, b);
                let xr = self.ts.sext(r, 2 * w as u16);
                let o = self.ts.cmp(Pred::Ne, p, xr);
                Val::A(Rc::new(vec![self.norm(r), self.norm(o)]))
            }
            Hk::SCmp => self.cmp3(Pred::Slt, args, av, ret),
            Hk::UCmp => self.cmp3(Pred::Ult, args, av, ret),
            Hk::Ctlz | Hk::Cttz | Hk::Ctpop => {
                let w = args[0].0.bits() as u32;
                if let Some(x) = Self::conc(&av[0]) {
                    let r = match k {
                        Hk::Ctlz => (x << (128 - w)).leading_zeros().min(w),
                        Hk::Cttz => x.trailing_zeros().min(w),
                        _ => x.count_ones(),
                    };
                    return Self::cv(w, r as u128);
                }
                let x = self.term(&av[0], w);
                let t = if k == Hk::Ctpop {
                    self.sum_bits(x, w)
                } else {
                    let mut r = self.ts.cst(w as u16, w as u128);
                    for j in 0..w {
                        // lowest-priority first
                        let (bit, val) = if k == Hk::Ctlz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                        let b = self.ts.extract(x, bit, 1);
                        let v = self.ts.cst(w as u16, val as u128);
                        r = self.ts.ite(b, v, r);
                    }
                    r
                };
                self.norm(t)
            }
            Hk::BitReverse => {
                let w = args[0].0.bits() as u32;
                let x = self.term(&av[0], w);
                let mut t = self.ts.extract(x, w - 1, 1);
                for i in (0..w - 1).rev() {
                    let b = self.ts.extract(x, i, 1);
                    t = self.ts.concat(b, t);
                }
                // bit i of the input becomes bit w-1-i
                self.norm(t)
            }
            Hk::Bswap => {
                let w = args[0].0.bits() as u32;
                let x = self.term(&av[0], w);
                let mut t = self.ts.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ts.extract(x, i * 8, 8);
                    t = self.ts.concat(t, b);
                }
                self.norm(t)
            }
            Hk::Fshl | Hk::Fshr => {
                let w = args[0].0.bits() as u32;
                let a = self.term(&av[0], w);
                let b = self.term(&av[1], w);
                let s = self.concretize(&av[2], w) as u32 % w;
                let c = self.ts.concat(a, b);
                let t = if k == Hk::Fshl { self.ts.extract(c, w - s, w as u16) } else { self.ts.extract(c, s, w as u16) };
                self.norm(t)
            }
            Hk::Abs => {
                let w = args[0].0.bits() as u32;
                let x = self.term(&av[0], w);
                let z = self.ts.cst(w as u16, 0);
                let n = self.ts.bin(Bin::Sub, z, x);
                let c = self.ts.cmp(Pred::Slt, x, z);
                let t = self.ts.ite(c, n, x);
                self.norm(t)
            }
            Hk::FpClass => {
                let w = args[0].0.bits() as u32;
                let x = self.term(&av[0], w);
                let mask = Self::conc(&av[1]).unwrap_or(0) as u32;
                let (mb, eb) = if w == 32 { (23u32, 8u32) } else { (52, 11) };
                let s = self.ts.extract(x, w - 1, 1);
                let ex = self.ts.extract(x, mb, eb as u16);
                let mn = self.ts.extract(x, 0, mb as u16);
                let e1 = self.ts.cst(eb as u16, m(eb as u16));
                let e0 = self.ts.cst(eb as u16, 0);
                let m0 = self.ts.cst(mb as u16, 0);
                let ismax = self.ts.cmp(Pred::Eq, ex, e1);
                let iszero_e = self.ts.cmp(Pred::Eq, ex, e0);
                let mzero = self.ts.cmp(Pred::Eq, mn, m0);
                let q = self.ts.extract(x, mb - 1, 1);
                let nm = self.ts.not(mzero);
                let ns = self.ts.not(s);
                let nq = self.ts.not(q);
                let nan = self.ts.bin(Bin::And, ismax, nm);
                let inf = self.ts.bin(Bin::And, ismax, mzero);
                let zero = self.ts.bin(Bin::And, iszero_e, mzero);
                let sub = self.ts.bin(Bin::And, iszero_e, nm);
                let em = self.ts.bin(Bin::Or, ismax, iszero_e);
                let norm = self.ts.not(em);
                let mut r = self.ts.bool(false);
                let cls: [(u32, T, Option<bool>); 10] = [
                    (0, nan, None),
                    (1, nan, None),
                    (2, inf, Some(true)),
                    (3, norm, Some(true)),
                    (4, sub, Some(true)),
                    (5, zero, Some(true)),
                    (6, zero, Some(false)),
                    (7, sub, Some(false)),
                    (8, norm, Some(false)),
                    (9, inf, Some(false)),
                ];
                for (b, t, sg) in cls {
                    if mask >> b & 1 == 0 {
                        continue;
                    }
                    let c = match (b, sg) {
                        (0, _) => self.ts.bin(Bin::And, t, nq),
                        (1, _) => self.ts.bin(Bin::And, t, q),
                        (_, Some(true)) => self.ts.bin(Bin::And, t, s),
                        _ => self.ts.bin(Bin::And, t, ns),
                    };
                    r = self.ts.bin(Bin::Or, r, c);
                }
                self.norm(r)
            }
            Hk::FpToSiSat | Hk::FpToUiSat => {
                let w = args[0].0.bits() as u32;
                let x = self.term(&av[0], w);
                let t = self.ts.funary(if k == Hk::FpToSiSat { K::FToSi } else { K::FToUi }, 0, ret.bits() as u16, x);
                self.norm(t)
            }
            Hk::Tls | Hk::Ident => av[0].clone(),
            Hk::IsConst => Val::I(0),
            Hk::AddCarry | Hk::SubBorrow => {
                // {i8, i64} (i8 carry, i64 a, i64 b)
                let c = self.term(&av[0], 8);
                let z8 = self.ts.cst(8, 0);
                let cb = self.ts.cmp(Pred::Ne, c, z8);
                let c65 = self.ts.zext(cb, 65);
                let a = self.term(&av[1], 64);
                let b = self.term(&av[2], 64);
                let (a65, b65) = (self.ts.zext(a, 65), self.ts.zext(b, 65));
                let op = if k == Hk::AddCarry { Bin::Add } else { Bin::Sub };
                let s = self.ts.bin(op, a65, b65);
                let s = self.ts.bin(op, s, c65);
                let r = self.ts.extract(s, 0, 64);
                let o = self.ts.extract(s, 64, 1);
                let o = self.ts.zext(o, 8);
                Val::A(Rc::new(vec![self.norm(o), self.norm(r)]))
            }
            Hk::FAbs => {
                let (n, w) = match &args[0].0 {
                    Ty::Vec(n, t) => (*n, t.bits() as u32),
                    t => (0, t.bits() as u32),
                };
                self.map1(n, &av[0], |e, a| {
                    let x = e.term(a, w);
                    let mk = e.ts.cst(w as u16, m(w as u16) >> 1);
                    let t = e.ts.bin(Bin::And, x, mk);
                    e.norm(t)
                })
            }
            Hk::CopySign => {
                let (a, b, w) = self.t2(args, av);
                let mk = self.ts.cst(w as u16, m(w as u16) >> 1);
                let sg = self.ts.cst(w as u16, 1u128 << (w - 1));
                let x = self.ts.bin(Bin::And, a, mk);
                let y = self.ts.bin(Bin::And, b, sg);
                let t = self.ts.bin(Bin::Or, x, y);
                self.norm(t)
            }
            Hk::FSqrt => self.f1(K::FSqrt, 0, args, av),
            Hk::FRound => self.f1(K::FRound, 0, args, av),
            Hk::FFloor => self.f1(K::FRound, 1, args, av),
            Hk::FCeil => self.f1(K::FRound, 2, args, av),
            Hk::FTrunc => self.f1(K::FRound, 3, args, av),
            Hk::FRoundEven => self.f1(K::FRound, 4, args, av),
            Hk::Fma | Hk::FMulAdd => {
                let (n, w) = match &args[0].0 {
                    Ty::Vec(n, t) => (*n, t.bits() as u32),
                    t => (0, t.bits() as u32),
                };
                let mut o = vec![];
                for i in 0..n.max(1) as usize {
                    let g = |v: &Val| if n == 0 { v.clone() } else { Self::elem(v, i) };
                    let (a, b, c) = (g(&av[0]), g(&av[1]), g(&av[2]));
                    let (a, b, c) = (self.term(&a, w), self.term(&b, w), self.term(&c, w));
                    let t = self.ts.fma(a, b, c);
                    o.push(self.norm(t));
                }
                if n == 0 {
                    o.pop().unwrap()
                } else {
                    Val::A(Rc::new(o))
                }
            }
            Hk::FMin | Hk::FMax => {
                let (a, b, _) = self.t2(args, av);
                let t = self.ts.fminmax(k == Hk::FMax, a, b);
                self.norm(t)
            }
            Hk::Log2 | Hk::Exp2 | Hk::Ln | Hk::Exp | Hk::Log10 | Hk::Sin | Hk::Cos | Hk::Tan => {
                // library functions of the host: only on concrete arguments
                let w = args[0].0.bits() as u32;
                let x = self.concretize(&av[0], w);
                let f = |x: f64| match k {
                    Hk::Log2 => x.log2(),
                    Hk::Exp2 => x.exp2(),
                    Hk::Ln => x.ln(),
                    Hk::Exp => x.exp(),
                    Hk::Log10 => x.log10(),
                    Hk::Sin => x.sin(),
                    Hk::Cos => x.cos(),
                    _ => x.tan(),
                };
                if w == 64 {
                    Val::I(f(f64::from_bits(x as u64)).to_bits())
                } else {
                    Val::I((f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64)
                }
            }
            Hk::Pow | Hk::Atan2 => {
                let w = args[0].0.bits() as u32;
                let x = self.concretize(&av[0], w) as u64;
                let y = self.concretize(&av[1], w) as u64;
                let g = |x: f64, y: f64| if k == Hk::Pow { x.powf(y) } else { x.atan2(y) };
                if w == 64 {
                    Val::I(g(f64::from_bits(x), f64::from_bits(y)).to_bits())
                } else {
                    Val::I((g(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64)
                }
            }
            Hk::PowI => {
                let w = args[0].0.bits() as u32;
                let x = self.concretize(&av[0], w) as u64;
                let n = self.concretize(&av[1], 32) as u32 as i32;
                if w == 64 {
                    Val::I(f64::from_bits(x).powi(n).to_bits())
                } else {
                    Val::I(f32::from_bits(x as u32).powi(n).to_bits() as u64)
                }
            }
            Hk::LibM1 | Hk::LibM2 => self.fatal("library math function"),
            Hk::VReduce => self.fatal("vector.reduce"),

            // ---------------------------------------------------------------- harness intrinsics
            Hk::SymU64 => {
                let lo = self.concretize(&av[0], 64);
                let hi = self.concretize(&av[1], 64);
                let n = self.str_arg(&av[2], &av[3]);
                self.input(&n, 64, lo, hi)
            }
            Hk::SymChoose => {
                let n = self.concretize(&av[0], 64) as u64;
                let s = self.str_arg(&av[1], &av[2]);
                Val::I(self.choose(n, &s))
            }
            Hk::SymAssume => {
                let c = self.term(&av[0], args[0].0.bits() as u32);
                let c = self.to_bool(c);
                self.assume(c);
                Val::P
            }
            Hk::SymAssert => {
                let c = self.term(&av[0], args[0].0.bits() as u32);
                let c = self.to_bool(c);
                let l = self.str_arg(&av[1], &av[2]);
                self.label(&format!("ASSERT {}", l));
                self.assert_t(c, &l);
                Val::P
            }
            Hk::SymReach => {
                let l = self.str_arg(&av[0], &av[1]);
                self.label(&format!("REACH {}", l));
                Val::P
            }
            Hk::SymNote => {
                let l = self.str_arg(&av[0], &av[1]);
                self.notes.push(l);
                Val::P
            }
            Hk::SymNoteV => {
                let l = self.str_arg(&av[0], &av[1]);
                let s = match &av[2] {
                    Val::S(t) => self.ts.show(*t, 5),
                    v => format!("{:?}", v),
                };
                self.notes.push(format!("{} = {}", l, s));
                Val::P
            }
            Hk::SymConc => {
                let v = self.concretize(&av[0], 64);
                Val::I(v as u64)
            }
            Hk::SymNoPanic => {
                let on = self.concretize(&av[0], args[0].0.bits() as u32);
                let l = self.str_arg(&av[1], &av[2]);
                self.nopanic = if on != 0 { Some(l) } else { None };
                Val::P
            }
            Hk::SymReplaying => Val::I(0),
            Hk::SymPrinted => Val::I(self.printed),
            Hk::SymEnd => self.end_path(),
            Hk::SymModel => {
                // value of the argument under the current model (no constraint is added)
                let v = match &av[0] {
                    Val::S(t) => self.ev(*t),
                    v => Self::conc(v).unwrap_or(0),
                };
                Val::I(v as u64)
            }
            Hk::SymUf => {
                // sym_uf(name, len, result bits, a, b) -> u64
                let n = self.str_arg(&av[0], &av[1]);
                let w = self.concretize(&av[2], 64) as u16;
                let a = self.term(&av[3], 64);
                let b = self.term(&av[4], 64);
                let t = self.ts.uf(&n, w, &[a, b]);
                let t = self.ts.zext(t, 64);
                self.norm(t)
            }
            Hk::RVar => {
                let n = self.str_arg(&av[0], &av[1]);
                self.ring(RNode::Var(n))
            }
            Hk::RConst => {
                let n = self.str_arg(&av[0], &av[1]);
                self.ring(RNode::Const(n))
            }
            Hk::RBin => {
                let op = self.concretize(&av[0], args[0].0.bits() as u32) as u8;
                let a = self.concretize(&av[1], 32) as u32;
                let b = self.concretize(&av[2], 32) as u32;
                self.ring(RNode::Bin(op, a, b))
            }
            Hk::RUf => {
                let n = self.str_arg(&av[0], &av[1]);
                let p = self.concretize(&av[2], 64) as u64;
                let c = self.concretize(&av[3], 64) as u64;
                let v: Vec<u32> = (0..c).map(|i| self.mem.raw(p + 4 * i, 4) as u32).collect();
                self.ring(RNode::Uf(n, v))
            }
            Hk::RAssertEq | Hk::REq => {
                let a = self.concretize(&av[0], 32) as u32;
                let b = self.concretize(&av[1], 32) as u32;
                let l = if k == Hk::RAssertEq { self.str_arg(&av[2], &av[3]) } else { String::new() };
                let r = self.ring_eq(a, b);
                if k == Hk::REq {
                    return Val::I((r == Some(true)) as u64);
                }
                self.label(&format!("ASSERT {}", l));
                match r {
                    Some(true) => {}
                    Some(false) => {
                        self.violation(&l, None);
                        self.end();
                    }
                    None => self.fatal(&format!("solver gave up on {}", l)),
                }
                Val::P
            }
        }
    }
    fn to_bool(&mut self, t: T) -> T {
        let w = self.ts.w(t);
        if w == 1 {
            return t;
        }
        let z = self.ts.cst(w, 0);
        self.ts.cmp(Pred::Ne, t, z)
    }
    fn ring(&mut self, n: RNode) -> Val {
        if let Some(i) = self.ring_idx.get(&n) {
            return Val::I(*i as u64);
        }
        let i = self.rings.len() as u32;
        self.rings.push(n.clone());
        self.ring_idx.insert(n, i);
        Val::I(i as u64)
    }
    fn ring_ast(&mut self, i: u32) -> Ast {
        if let Some(a) = self.ring_ast.get(&i) {
            return *a;
        }
        let a = match self.rings[i as usize].clone() {
            RNode::Var(n) => self.sol.real_var(&format!("v_{}", n)),
            RNode::Const(s) => self.sol.real_num(&s),
            RNode::Bin(o, a, b) => {
                let (x, y) = (self.ring_ast(a), self.ring_ast(b));
                self.sol.real_op(o, x, y)
            }
            RNode::Uf(n, v) => {
                let xs: Vec<Ast> = v.iter().map(|x| self.ring_ast(*x)).collect();
                self.sol.real_uf(&n, &xs)
            }
        };
        self.ring_ast.insert(i, a);
        a
    }
    /// Some(true): equal for all real values of the variables; Some(false): a counterexample exists.
    fn ring_eq(&mut self, a: u32, b: u32) -> Option<bool> {
        self.count_assert();
        if a == b {
            self.count(true);
            return Some(true);
        }
        let key = (a.min(b), a.max(b));
        if let Some(r) = self.ring_known.get(&key) {
            return Some(*r);
        }
        let t0 = std::time::Instant::now();
        let (x, y) = (self.ring_ast(a), self.ring_ast(b));
        let e = self.sol.real_op(b'=', x, y);
        let ne = self.sol.not(e);
        let (r, _) = self.sol.check_real(&[ne], "", self.cfg.rlimit_heavy, &[]);
        self.count_query(t0.elapsed().as_micros() as u64, r);
        let out = match r {
            -1 => Some(true),
            1 => Some(false),
            _ => None,
        };
        if let Some(o) = out {
            self.ring_known.insert(key, o);
            if o {
                self.count(false);
            }
        }
        out
    }
}
