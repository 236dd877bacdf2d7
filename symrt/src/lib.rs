//! Harness run time: symbolic inputs, assumptions, assertions and "ring" terms (terms over the reals).

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_u64(lo: u64, hi: u64, p: *const u8, n: usize) -> u64;
        fn sym_choose(n: u64, p: *const u8, l: usize) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, p: *const u8, n: usize);
        fn sym_reach(p: *const u8, n: usize);
        fn sym_note(p: *const u8, n: usize);
        fn sym_note_v(p: *const u8, n: usize, v: u64);
        fn sym_concretize(v: u64) -> u64;
        fn sym_model(v: u64) -> u64;
        fn sym_nopanic(on: u64, p: *const u8, n: usize);
        fn sym_end() -> !;
        fn sym_printed() -> u64;
        fn r_var(p: *const u8, n: usize) -> u32;
        fn r_const(p: *const u8, n: usize) -> u32;
        fn r_bin(op: u32, a: u32, b: u32) -> u32;
        fn r_uf(p: *const u8, n: usize, a: *const u32, k: usize) -> u32;
        fn r_assert_eq(a: u32, b: u32, p: *const u8, n: usize);
        fn r_eq(a: u32, b: u32) -> u32;
    }
    pub fn u64_in(lo: u64, hi: u64, tag: &str) -> u64 {
        unsafe { sym_u64(lo, hi, tag.as_ptr(), tag.len()) }
    }
    pub fn choose(n: u64, tag: &str) -> u64 {
        unsafe { sym_choose(n, tag.as_ptr(), tag.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, label: &str) {
        unsafe { sym_assert(c, label.as_ptr(), label.len()) }
    }
    pub fn reach(label: &str) {
        unsafe { sym_reach(label.as_ptr(), label.len()) }
    }
    pub fn note(s: &str) {
        unsafe { sym_note(s.as_ptr(), s.len()) }
    }
    pub fn note_v(s: &str, v: u64) {
        unsafe { sym_note_v(s.as_ptr(), s.len(), v) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    pub fn model(v: u64) -> u64 {
        unsafe { sym_model(v) }
    }
    pub fn nopanic(label: Option<&str>) {
        match label {
            Some(l) => unsafe { sym_nopanic(1, l.as_ptr(), l.len()) },
            None => unsafe { sym_nopanic(0, "".as_ptr(), 0) },
        }
    }
    pub fn end() -> ! {
        unsafe { sym_end() }
    }
    /// Grows whenever something is written to standard output.
    pub fn printed() -> u64 {
        unsafe { sym_printed() }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct Rg(pub u32);
    impl Rg {
        pub fn var(n: &str) -> Rg {
            Rg(unsafe { r_var(n.as_ptr(), n.len()) })
        }
        pub fn num(n: &str) -> Rg {
            Rg(unsafe { r_const(n.as_ptr(), n.len()) })
        }
        pub fn bin(op: u8, a: Rg, b: Rg) -> Rg {
            Rg(unsafe { r_bin(op as u32, a.0, b.0) })
        }
        pub fn uf(n: &str, a: &[Rg]) -> Rg {
            Rg(unsafe { r_uf(n.as_ptr(), n.len(), a.as_ptr() as *const u32, a.len()) })
        }
        pub fn assert_eq(a: Rg, b: Rg, label: &str) {
            unsafe { r_assert_eq(a.0, b.0, label.as_ptr(), label.len()) }
        }
        pub fn equal(a: Rg, b: Rg) -> bool {
            unsafe { r_eq(a.0, b.0) != 0 }
        }
    }
    pub fn setup() {}
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::sync::Mutex;
    static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
    static NOPANIC: Mutex<Option<String>> = Mutex::new(None);

    extern "C" {
        fn memfd_create(n: *const u8, f: u32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn lseek(fd: i32, o: i64, w: i32) -> i64;
    }
    /// Grows whenever something is written to standard output.
    pub fn printed() -> u64 {
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        unsafe { lseek(1, 0, 1) as u64 }
    }

    fn next(tag: &str) -> u64 {
        let mut g = INPUTS.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        if i >= g.0.len() {
            eprintln!("REPLAY-EXHAUSTED {}", tag);
            std::process::exit(45);
        }
        g.0[i]
    }
    /// Reads the recorded inputs and installs the panic hook.
    pub fn setup() {
        unsafe {
            let f = memfd_create(b"out\0".as_ptr(), 0);
            dup2(f, 1);
        }
        let p = std::env::var("SYM_INPUTS").unwrap_or_default();
        let v: Vec<u64> = p.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        *INPUTS.lock().unwrap() = (v, 0);
        std::panic::set_hook(Box::new(|i| {
            let l = NOPANIC.lock().unwrap().clone();
            eprintln!("{}", i);
            match l {
                Some(l) => {
                    eprintln!("REPLAY-VIOLATION {}", l);
                    std::process::exit(42);
                }
                None => {
                    eprintln!("REPLAY-PANIC");
                    std::process::exit(44);
                }
            }
        }));
    }
    pub fn u64_in(_lo: u64, _hi: u64, tag: &str) -> u64 {
        next(tag)
    }
    pub fn choose(_n: u64, tag: &str) -> u64 {
        next(tag)
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUMPTION-FAILED");
            std::process::exit(46);
        }
    }
    pub fn check(c: bool, label: &str) {
        if !c {
            eprintln!("REPLAY-VIOLATION {}", label);
            std::process::exit(42);
        }
    }
    pub fn reach(_: &str) {}
    pub fn note(s: &str) {
        eprintln!("note: {}", s);
    }
    pub fn note_v(s: &str, v: u64) {
        eprintln!("note: {} = {}", s, v);
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn model(v: u64) -> u64 {
        v
    }
    pub fn nopanic(l: Option<&str>) {
        *NOPANIC.lock().unwrap() = l.map(|s| s.to_string());
    }
    pub fn end() -> ! {
        std::process::exit(0)
    }

    /// Terms over the reals are evaluated in the prime field of order 2^61 - 1 at a pseudo-random point.
    pub const P: u64 = (1 << 61) - 1;
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct Rg(pub u64);
    fn mulm(a: u64, b: u64) -> u64 {
        ((a as u128 * b as u128) % P as u128) as u64
    }
    fn powm(mut a: u64, mut e: u64) -> u64 {
        let mut r = 1;
        while e > 0 {
            if e & 1 == 1 {
                r = mulm(r, a);
            }
            a = mulm(a, a);
            e >>= 1;
        }
        r
    }
    fn inv(a: u64) -> u64 {
        powm(a, P - 2)
    }
    fn hash(s: &str, a: &[Rg]) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut step = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
            h = h.wrapping_mul(0xbf58476d1ce4e5b9);
            h ^= h >> 32;
        };
        for b in s.bytes() {
            step(b as u64 + 1);
        }
        for x in a {
            step(x.0.wrapping_add(12345));
        }
        h % P
    }
    impl Rg {
        pub fn var(n: &str) -> Rg {
            Rg(hash(n, &[]))
        }
        pub fn num(n: &str) -> Rg {
            // [-]digits[.digits]
            let (neg, s) = match n.strip_prefix('-') {
                Some(s) => (true, s),
                None => (false, n),
            };
            let mut v = 0u64;
            let mut d = 1u64;
            let mut dot = false;
            for c in s.bytes() {
                if c == b'.' {
                    dot = true;
                } else {
                    v = (mulm(v, 10) + (c - b'0') as u64) % P;
                    if dot {
                        d = mulm(d, 10);
                    }
                }
            }
            let v = mulm(v, inv(d));
            Rg(if neg { (P - v) % P } else { v })
        }
        pub fn bin(op: u8, a: Rg, b: Rg) -> Rg {
            Rg(match op {
                b'+' => (a.0 + b.0) % P,
                b'-' => (a.0 + P - b.0) % P,
                b'*' => mulm(a.0, b.0),
                b'/' => mulm(a.0, inv(b.0)),
                _ => panic!("ring operator"),
            })
        }
        pub fn uf(n: &str, a: &[Rg]) -> Rg {
            Rg(hash(&format!("{}/{}", n, a.len()), a))
        }
        pub fn assert_eq(a: Rg, b: Rg, label: &str) {
            check(a == b, label)
        }
        pub fn equal(a: Rg, b: Rg) -> bool {
            a == b
        }
    }
}
pub use imp::*;

pub fn sym_bool(tag: &str) -> bool {
    u64_in(0, 1, tag) != 0
}
