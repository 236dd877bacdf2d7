//! Memory of the interpreted program: fixed native mappings plus a one-byte-per-byte shadow marking symbolic bytes.
use crate::term::*;
use std::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
}

pub const STACK_BASE: u64 = 0x2100_0000_0000;
pub const STACK_SIZE: u64 = 256 << 20;
pub const HEAP_BASE: u64 = 0x2200_0000_0000;
pub const HEAP_SIZE: u64 = 4 << 30;
pub const SHADOW: u64 = 0x0080_0000_0000;

pub fn map_fixed(addr: u64, len: u64, shared: bool) {
    unsafe {
        let f = 0x10 | 0x20 | 0x4000 | if shared { 1 } else { 2 };
        let r = mmap(addr as *mut c_void, len as usize, 3, f, -1, 0);
        if r as u64 != addr {
            panic!("mmap {:x} failed", addr);
        }
    }
}
/// A read-only mapping: pages of a mapped file cost nothing at fork.
pub fn map_file(p: &str) -> Result<&'static str, String> {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
    let n = f.metadata().map_err(|e| e.to_string())?.len() as usize;
    if n == 0 {
        return Ok("");
    }
    unsafe {
        let r = mmap(std::ptr::null_mut(), n, 1, 1, f.as_raw_fd(), 0);
        if r as isize == -1 {
            return Err("mmap failed".to_string());
        }
        std::str::from_utf8(std::slice::from_raw_parts(r as *const u8, n)).map_err(|e| e.to_string())
    }
}
pub fn map_shared(len: u64) -> *mut u8 {
    unsafe {
        let r = mmap(std::ptr::null_mut(), len as usize, 3, 0x20 | 1, -1, 0);
        if r as isize == -1 {
            panic!("mmap shared failed");
        }
        r as *mut u8
    }
}

pub struct Mem {
    pub gend: u64,
    pub sp: u64,
    hp: u64,
    free: Vec<Vec<u64>>,
    pub sym: FxMap<u64, (T, u8)>,
}

pub enum Ld {
    C(u128),
    S(T),
}

impl Mem {
    pub fn new(gbase: u64, gend: u64) -> Mem {
        let gl = (gend - gbase + 0xffff) & !0xffff;
        map_fixed(gbase, gl, false);
        map_fixed(gbase + SHADOW, gl, false);
        map_fixed(STACK_BASE, STACK_SIZE, false);
        map_fixed(STACK_BASE + SHADOW, STACK_SIZE, false);
        map_fixed(HEAP_BASE, HEAP_SIZE, false);
        map_fixed(HEAP_BASE + SHADOW, HEAP_SIZE, false);
        Mem { gend, sp: STACK_BASE + 64, hp: HEAP_BASE + 64, free: vec![vec![]; 64], sym: Default::default() }
    }
    #[inline]
    pub fn valid(&self, a: u64, n: u64) -> bool {
        let e = a.wrapping_add(n);
        (a >= STACK_BASE && e <= self.sp + 4096)
            || (a >= HEAP_BASE && e <= self.hp)
            || (a >= crate::parse::GLOBAL_BASE && e <= self.gend)
    }
    #[inline]
    pub fn is_sym(&self, a: u64, n: u64) -> bool {
        unsafe {
            let s = (a + SHADOW) as *const u8;
            match n {
                1 => *s != 0,
                2 => (s as *const u16).read_unaligned() != 0,
                4 => (s as *const u32).read_unaligned() != 0,
                8 => (s as *const u64).read_unaligned() != 0,
                _ => {
                    let mut i = 0;
                    while i + 8 <= n {
                        if (s.add(i as usize) as *const u64).read_unaligned() != 0 {
                            return true;
                        }
                        i += 8;
                    }
                    while i < n {
                        if *s.add(i as usize) != 0 {
                            return true;
                        }
                        i += 1;
                    }
                    false
                }
            }
        }
    }
    #[inline]
    pub fn raw(&self, a: u64, n: u64) -> u128 {
        unsafe {
            match n {
                1 => *(a as *const u8) as u128,
                2 => (a as *const u16).read_unaligned() as u128,
                4 => (a as *const u32).read_unaligned() as u128,
                8 => (a as *const u64).read_unaligned() as u128,
                16 => (a as *const u128).read_unaligned(),
                _ => {
                    let mut v = 0u128;
                    for i in 0..n {
                        v |= (*((a + i) as *const u8) as u128) << (8 * i);
                    }
                    v
                }
            }
        }
    }
    /// Load an integer of w bits stored in n bytes.
    #[inline]
    pub fn load(&mut self, ts: &mut Terms, a: u64, w: u32, n: u64) -> Ld {
        if !self.is_sym(a, n) {
            let v = self.raw(a, n);
            return Ld::C(if w as u64 == n * 8 { v } else { v & m(w as u16) });
        }
        Ld::S(self.load_sym(ts, a, w, n))
    }
    fn byte(&self, ts: &mut Terms, a: u64) -> T {
        unsafe {
            if *((a + SHADOW) as *const u8) != 0 {
                let (t, i) = self.sym[&a];
                ts.extract(t, i as u32 * 8, 8)
            } else {
                ts.cst(8, *(a as *const u8) as u128)
            }
        }
    }
    fn load_sym(&mut self, ts: &mut Terms, a: u64, w: u32, n: u64) -> T {
        // fast path: consecutive bytes of one term
        if let Some(&(t, i0)) = self.sym.get(&a) {
            let mut ok = unsafe { *((a + SHADOW) as *const u8) != 0 };
            for k in 1..n {
                unsafe {
                    if *((a + k + SHADOW) as *const u8) == 0 {
                        ok = false;
                        break;
                    }
                }
                match self.sym.get(&(a + k)) {
                    Some(&(t2, i2)) if t2 == t && i2 as u64 == i0 as u64 + k => {}
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return ts.extract(t, i0 as u32 * 8, w as u16);
            }
        }
        let mut v = self.byte(ts, a);
        for k in 1..n {
            let b = self.byte(ts, a + k);
            v = ts.concat(b, v);
        }
        ts.extract(v, 0, w as u16)
    }
    #[inline]
    pub fn store(&mut self, a: u64, v: u128, n: u64) {
        unsafe {
            match n {
                1 => {
                    *(a as *mut u8) = v as u8;
                    *((a + SHADOW) as *mut u8) = 0;
                }
                2 => {
                    (a as *mut u16).write_unaligned(v as u16);
                    ((a + SHADOW) as *mut u16).write_unaligned(0);
                }
                4 => {
                    (a as *mut u32).write_unaligned(v as u32);
                    ((a + SHADOW) as *mut u32).write_unaligned(0);
                }
                8 => {
                    (a as *mut u64).write_unaligned(v as u64);
                    ((a + SHADOW) as *mut u64).write_unaligned(0);
                }
                _ => {
                    for i in 0..n {
                        *((a + i) as *mut u8) = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
                        *((a + i + SHADOW) as *mut u8) = 0;
                    }
                }
            }
        }
    }
    pub fn store_sym(&mut self, ts: &mut Terms, a: u64, t: T, n: u64) {
        let t = ts.zext(t, (n * 8) as u16);
        if let Some(v) = ts.as_const(t) {
            return self.store(a, v, n);
        }
        for i in 0..n {
            unsafe { *((a + i + SHADOW) as *mut u8) = 1 };
            self.sym.insert(a + i, (t, i as u8));
        }
    }
    pub fn clear(&mut self, a: u64, n: u64) {
        unsafe { std::ptr::write_bytes((a + SHADOW) as *mut u8, 0, n as usize) };
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        unsafe {
            if !self.is_sym(s, n) {
                std::ptr::copy(s as *const u8, d as *mut u8, n as usize);
                self.clear(d, n);
                return;
            }
            let mut ents = vec![];
            for i in 0..n {
                if *((s + i + SHADOW) as *const u8) != 0 {
                    ents.push((i, self.sym[&(s + i)]));
                }
            }
            std::ptr::copy(s as *const u8, d as *mut u8, n as usize);
            self.clear(d, n);
            for (i, e) in ents {
                *((d + i + SHADOW) as *mut u8) = 1;
                self.sym.insert(d + i, e);
            }
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let size = size.max(1);
        let al = align.max(16);
        let cls = if al <= 16 { (64 - (size + 15).leading_zeros()) as usize } else { 63 };
        if cls < 63 {
            if let Some(a) = self.free[cls].pop() {
                self.store(a - 16, size as u128, 8);
                self.clear(a, size);
                return a;
            }
            let cap = 1u64 << cls;
            let a = self.hp + 16;
            self.hp += cap + 32;
            self.hp = (self.hp + 15) & !15;
            self.check();
            self.store(a - 16, size as u128, 8);
            self.store(a - 8, cls as u128, 8);
            return a;
        }
        let a = (self.hp + 16 + al - 1) / al * al;
        self.hp = (a + size + 31) & !15;
        self.check();
        self.store(a - 16, size as u128, 8);
        self.store(a - 8, 63, 8);
        a
    }
    fn check(&self) {
        if self.hp > HEAP_BASE + HEAP_SIZE {
            panic!("interpreted heap exhausted");
        }
    }
    pub fn free(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let c = self.raw(a - 8, 8) as usize;
        if c < 63 {
            self.free[c].push(a);
        }
    }
    pub fn size_of(&self, a: u64) -> u64 {
        self.raw(a - 16, 8) as u64
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(8);
        let a = (self.sp + al - 1) / al * al;
        self.sp = a + size;
        if self.sp + 8192 > STACK_BASE + STACK_SIZE {
            panic!("interpreted stack overflow");
        }
        self.clear(a, size);
        a
    }
    pub fn cstr(&self, a: u64) -> Vec<u8> {
        let mut v = vec![];
        let mut p = a;
        loop {
            let b = self.raw(p, 1) as u8;
            if b == 0 || !self.valid(p, 1) {
                return v;
            }
            v.push(b);
            p += 1;
        }
    }
}
