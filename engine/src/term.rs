//! Hash-consed bit-vector / floating-point term DAG with simplification and interval analysis.
//! Floating-point values are terms of width 32 or 64 holding the IEEE bit pattern.
use crate::ir::{Bin, FPred, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat, // a high, b low
    Extract, // a, imm = low bit
    ZExt,
    SExt,
    Ite, // a cond (w=1)
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point; operand width tells the format
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    Fma,
    FSqrt,
    FRound,   // imm: 0 nearest-away (round), 1 floor, 2 ceil, 3 trunc, 4 nearest-even
    FCmp,     // imm: 0 oeq 1 olt 2 ole 3 uno
    FToSi,    // saturating conversions; w = result width
    FToUi,
    SiToF,    // w = result float width, a any width
    UiToF,
    FConv,    // float <-> double
    FMin,
    FMax,
    Uf, // uninterpreted function: imm = name id, args a,b,c (NONE when absent)
}

pub const NONE: T = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub imm: u128,
}

pub struct Terms {
    pub n: Vec<Node>,
    pub rng: Vec<(u128, u128)>,
    pub srng: Vec<(i128, i128)>, // as a signed number
    pub fp: Vec<bool>, // cone contains floating-point or UF operations
    pub uf: Vec<bool>, // cone contains UF operations
    pub leaves: Vec<u8>, // number of leaves when the term is a decision tree over constants, else 0
    h: FxMap<Node, T>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub term: T,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub is_input: bool,
}

pub fn is_fp(k: K) -> bool {
    matches!(
        k,
        K::FAdd | K::FSub | K::FMul | K::FDiv | K::FRem | K::Fma | K::FSqrt | K::FRound | K::FCmp | K::FToSi | K::FToUi
            | K::SiToF | K::UiToF | K::FConv | K::FMin | K::FMax
    )
}

pub fn m(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(x: u128, w: u16) -> i128 {
    if w >= 128 {
        x as i128
    } else {
        let s = 128 - w as u32;
        ((x << s) as i128) >> s
    }
}

impl Terms {
    pub fn new() -> Self {
        Terms { n: vec![], rng: vec![], srng: vec![], fp: vec![], uf: vec![], leaves: vec![], h: Default::default(), vars: vec![], ufs: vec![] }
    }
    pub fn w(&self, t: T) -> u16 {
        self.n[t as usize].w
    }
    pub fn get(&self, t: T) -> Node {
        self.n[t as usize]
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.n[t as usize];
        if n.k == K::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str, w: u16, lo: u128, hi: u128, is_input: bool) -> T {
        let id = self.vars.len() as u128;
        let t = self.n.len() as T;
        self.n.push(Node { k: K::Var, w, a: NONE, b: NONE, c: NONE, imm: id });
        self.rng.push((lo, hi));
        self.srng.push(Self::to_signed(w, (lo, hi)));
        self.fp.push(false);
        self.uf.push(false);
        self.leaves.push(0);
        self.vars.push(VarInfo { name: name.to_string(), term: t, w, lo, hi, is_input });
        t
    }
    pub fn cst(&mut self, w: u16, v: u128) -> T {
        self.mk(Node { k: K::Const, w, a: NONE, b: NONE, c: NONE, imm: v & m(w) })
    }
    pub fn bool(&mut self, b: bool) -> T {
        self.cst(1, b as u128)
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.h.get(&n) {
            return *t;
        }
        let t = self.n.len() as T;
        let r = self.range_of(&n);
        let isfp = is_fp(n.k) || n.k == K::Uf;
        let f = isfp
            || [n.a, n.b, n.c].iter().any(|x| *x != NONE && self.fp[*x as usize]);
        // A singleton range is a constant.
        if n.k != K::Const && r.0 == r.1 && !isfp {
            let c = self.cst(n.w, r.0);
            self.h.insert(n, c);
            return c;
        }
        let lv = match n.k {
            K::Const => 1,
            K::Ite => match (self.leaves[n.b as usize], self.leaves[n.c as usize]) {
                (x, y) if x > 0 && y > 0 && x as u32 + y as u32 <= 70 => x + y,
                _ => 0,
            },
            _ => 0,
        };
        self.n.push(n);
        let sr = self.srange_of(&n, r);
        self.rng.push(r);
        self.srng.push(sr);
        self.fp.push(f);
        let u = n.k == K::Uf || [n.a, n.b, n.c].iter().any(|x| *x != NONE && self.uf[*x as usize]);
        self.uf.push(u);
        self.leaves.push(lv);
        self.h.insert(n, t);
        t
    }

    fn to_signed(w: u16, r: (u128, u128)) -> (i128, i128) {
        if w == 0 || w > 120 {
            return (i128::MIN, i128::MAX);
        }
        let half = 1u128 << (w - 1);
        if r.1 < half {
            (r.0 as i128, r.1 as i128)
        } else if r.0 >= half {
            (r.0 as i128 - (1i128 << w), r.1 as i128 - (1i128 << w))
        } else {
            (-(half as i128), half as i128 - 1)
        }
    }
    /// Bounds of the value read as a signed number (sound: the full range when nothing better is known).
    fn srange_of(&self, n: &Node, r: (u128, u128)) -> (i128, i128) {
        let dflt = Self::to_signed(n.w, r);
        if n.w > 64 || n.w == 0 {
            return dflt;
        }
        let lim = 1i128 << (n.w - 1);
        let s = |t: T| self.srng[t as usize];
        let fit = |l: i128, h: i128| if l >= -lim && h < lim { Some((l, h)) } else { None };
        let hull = |v: [i128; 4]| (*v.iter().min().unwrap(), *v.iter().max().unwrap());
        let x = match n.k {
            K::Add => {
                let (a, b) = (s(n.a), s(n.b));
                fit(a.0 + b.0, a.1 + b.1)
            }
            K::Sub => {
                let (a, b) = (s(n.a), s(n.b));
                fit(a.0 - b.1, a.1 - b.0)
            }
            K::Mul => {
                let (a, b) = (s(n.a), s(n.b));
                let (l, h) = hull([a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]);
                fit(l, h)
            }
            K::Shl => match self.as_const(n.b) {
                Some(k) if k < 40 => {
                    let a = s(n.a);
                    fit(a.0 << k, a.1 << k)
                }
                _ => None,
            },
            K::SDiv => {
                let (a, b) = (s(n.a), s(n.b));
                if b.0 > 0 {
                    Some(hull([a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1]))
                } else {
                    None
                }
            }
            K::SRem => {
                let (a, b) = (s(n.a), s(n.b));
                if b.0 > 0 {
                    Some((if a.0 < 0 { (-(b.1 - 1)).max(a.0) } else { 0 }, if a.1 > 0 { (b.1 - 1).min(a.1) } else { 0 }))
                } else {
                    None
                }
            }
            K::SExt => Some(s(n.a)),
            K::Ite => {
                let (a, b) = (s(n.b), s(n.c));
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            _ => None,
        };
        match x {
            // both bounds hold; keep the tighter one
            Some((l, h)) => (l.max(dflt.0), h.min(dflt.1)),
            None => dflt,
        }
    }

    fn range_of(&self, n: &Node) -> (u128, u128) {
        let full = (0, m(n.w));
        let r = |t: T| self.rng[t as usize];
        match n.k {
            K::Const => (n.imm, n.imm),
            K::Add => {
                let (a, b) = (r(n.a), r(n.b));
                let mm = m(n.w);
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                    (Some(l), Some(h)) if h <= mm => (l, h),
                    (Some(l), Some(h)) if n.w < 128 && l > mm && h <= 2 * mm + 1 => (l - mm - 1, h - mm - 1),
                    _ => full,
                }
            }
            K::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            K::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m(n.w) => (a.0 * b.0, h),
                    _ => full,
                }
            }
            K::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            K::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, (b.1 - 1).min(a.1))
                } else {
                    full
                }
            }
            K::And => {
                let (a, b) = (r(n.a), r(n.b));
                (0, a.1.min(b.1))
            }
            K::Or => {
                let (a, b) = (r(n.a), r(n.b));
                let hb = bits(a.1).max(bits(b.1));
                (a.0.max(b.0), m(hb as u16))
            }
            K::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                let hb = bits(a.1).max(bits(b.1));
                (0, m(hb as u16))
            }
            K::Concat => {
                let (a, b) = (r(n.a), r(n.b));
                let wb = self.w(n.b);
                ((a.0 << wb) + b.0, (a.1 << wb) + b.1)
            }
            K::Extract => {
                let a = r(n.a);
                let lo = n.imm as u32;
                let (l, h) = (a.0 >> lo, a.1 >> lo);
                if h <= m(n.w) {
                    (l, h)
                } else {
                    full
                }
            }
            K::ZExt => r(n.a),
            K::SExt => {
                let a = r(n.a);
                let wa = self.w(n.a);
                if a.1 >> (wa - 1) == 0 {
                    a
                } else {
                    full
                }
            }
            K::Shl => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 == b.1 && b.0 < n.w as u128 && bits(a.1) as u128 + b.0 <= n.w as u128 {
                    (a.0 << b.0, a.1 << b.0)
                } else {
                    full
                }
            }
            K::LShr => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 == b.1 && b.0 < 128 {
                    (a.0 >> b.0, a.1 >> b.0)
                } else {
                    (0, a.1)
                }
            }
            K::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        }
    }

    fn raw2(&mut self, k: K, w: u16, a: T, b: T) -> T {
        self.mk(Node { k, w, a, b, c: NONE, imm: 0 })
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let ones = self.cst(w, m(w));
        self.bin(Bin::Xor, a, ones)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bin::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Bin::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Bin::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Bin::Or, nc, a);
                }
                _ => {}
            }
        }
        let nc = self.get(c);
        // ite(not c, a, b) = ite(c, b, a)
        if nc.k == K::Xor && nc.w == 1 && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let na = self.get(a);
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.get(b);
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { k: K::Ite, w, a: c, b: a, c: b, imm: 0 })
    }

    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if wa > w {
            return self.extract(a, 0, w);
        }
        if let Some(v) = self.as_const(a) {
            return self.cst(w, v);
        }
        let n = self.get(a);
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        if n.k == K::Ite && wa == 8 {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let (x, y) = (self.cst(w, x), self.cst(w, y));
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Node { k: K::ZExt, w, a, b: NONE, c: NONE, imm: 0 })
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.cst(w, sx(v, wa) as u128);
        }
        if self.rng[a as usize].1 >> (wa - 1) == 0 {
            return self.zext(a, w);
        }
        self.mk(Node { k: K::SExt, w, a, b: NONE, c: NONE, imm: 0 })
    }
    /// Extract w bits starting at bit lo.
    pub fn extract(&mut self, a: T, lo: u32, w: u16) -> T {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo as u16 + w <= wa);
        if let Some(v) = self.as_const(a) {
            return self.cst(w, v >> lo);
        }
        let n = self.get(a);
        match n.k {
            K::Extract => return self.extract(n.a, lo + n.imm as u32, w),
            K::ZExt => {
                let wi = self.w(n.a) as u32;
                if lo >= wi {
                    return self.cst(w, 0);
                }
                if lo + w as u32 <= wi {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, (wi - lo) as u16);
                return self.zext(e, w);
            }
            K::SExt => {
                let wi = self.w(n.a) as u32;
                if lo + w as u32 <= wi {
                    return self.extract(n.a, lo, w);
                }
            }
            K::Concat => {
                let wl = self.w(n.b) as u32;
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w as u32 <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, (lo + w as u32 - wl) as u16);
                let l = self.extract(n.b, lo, (wl - lo) as u16);
                return self.concat(h, l);
            }
            K::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w == 1 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            K::And | K::Or | K::Xor => {
                if self.as_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    let op = match n.k {
                        K::And => Bin::And,
                        K::Or => Bin::Or,
                        _ => Bin::Xor,
                    };
                    return self.bin(op, x, y);
                }
            }
            K::Add | K::Sub | K::Mul if lo == 0 && !self.fp[a as usize] => {
                // low bits of modular arithmetic
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                let op = match n.k {
                    K::Add => Bin::Add,
                    K::Sub => Bin::Sub,
                    _ => Bin::Mul,
                };
                return self.bin(op, x, y);
            }
            K::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    let s = s as u32;
                    if s + lo + w as u32 <= wa as u32 {
                        return self.extract(n.a, lo + s, w);
                    }
                }
            }
            K::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    let s = s as u32;
                    if s >= lo + w as u32 {
                        return self.cst(w, 0);
                    }
                    if lo >= s {
                        return self.extract(n.a, lo - s, w);
                    }
                }
            }
            _ => {}
        }
        let r = self.rng[a as usize];
        if r.1 >> lo == 0 {
            return self.cst(w, 0);
        }
        self.mk(Node { k: K::Extract, w, a, b: NONE, c: NONE, imm: lo as u128 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst(w, (h << wl) | l);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.get(hi), self.get(lo));
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.imm == nl.imm + wl as u128 {
            return self.extract(nl.a, nl.imm as u32, w);
        }
        if nh.k == K::Extract && nl.k != K::Extract && nh.a == lo && nh.imm == wl as u128 {
            return self.extract(lo, 0, w);
        }
        // concat(hi, concat(mid, lo')) with hi,mid mergeable
        if nl.k == K::Concat {
            let nm = self.get(nl.a);
            if nh.k == K::Extract && nm.k == K::Extract && nh.a == nm.a && nh.imm == nm.imm + nm.w as u128 {
                let x = self.extract(nm.a, nm.imm as u32, nh.w + nm.w);
                return self.concat(x, nl.b);
            }
        }
        self.mk(Node { k: K::Concat, w, a: hi, b: lo, c: NONE, imm: 0 })
    }

    pub fn bin(&mut self, op: Bin, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.cst(w, r);
            }
        }
        if Self::isfop(op) && self.liftable(a, b) {
            return self.lift2(a, b, &mut |s, x, y| s.bin(op, x, y));
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let na = self.get(a);
        match op {
            Bin::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.k == K::Add {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cst(w, x.wrapping_add(y));
                            return self.bin(Bin::Add, na.a, c);
                        }
                    }
                }
                // (x - y) + y
                if na.k == K::Sub && na.b == b {
                    return na.a;
                }
                if cb.is_none() {
                    if let Some(t) = self.recompose(a, b).or_else(|| self.recompose(b, a)) {
                        return t;
                    }
                }
                self.raw2(K::Add, w, a, b)
            }
            Bin::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let c = self.cst(w, y.wrapping_neg());
                    return self.bin(Bin::Add, a, c);
                }
                if na.k == K::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                self.raw2(K::Sub, w, a, b)
            }
            Bin::Mul => {
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(y) if y.is_power_of_two() => {
                        let s = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Bin::Shl, a, s);
                    }
                    _ => {}
                }
                self.raw2(K::Mul, w, a, b)
            }
            Bin::UDiv => {
                match cb {
                    Some(1) => return a,
                    Some(y) if y.is_power_of_two() => {
                        let s = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Bin::LShr, a, s);
                    }
                    Some(y) if y != 0 => {
                        if na.k == K::UDiv {
                            if let Some(x) = self.as_const(na.b) {
                                if let Some(p) = x.checked_mul(y) {
                                    if p <= m(w) {
                                        let c = self.cst(w, p);
                                        return self.bin(Bin::UDiv, na.a, c);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if ra.1 < rb.0 {
                    return self.cst(w, 0);
                }
                if let Some(t) = self.div_parts(false, a, cb) {
                    return t;
                }
                if let Some(t) = self.narrow2(op, a, b) {
                    return t;
                }
                self.raw2(K::UDiv, w, a, b)
            }
            Bin::URem => {
                match cb {
                    Some(1) => return self.cst(w, 0),
                    Some(y) if y.is_power_of_two() => {
                        let k = y.trailing_zeros() as u16;
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    _ => {}
                }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if ra.1 < rb.0 {
                    return a;
                }
                if let Some(t) = self.div_parts(true, a, cb) {
                    return t;
                }
                if let Some(t) = self.narrow2(op, a, b) {
                    return t;
                }
                self.raw2(K::URem, w, a, b)
            }
            Bin::SDiv | Bin::SRem => {
                let top = |s: &Self, t: T| s.rng[t as usize].1 >> (w - 1) == 0;
                if top(self, a) && top(self, b) {
                    return self.bin(if op == Bin::SDiv { Bin::UDiv } else { Bin::URem }, a, b);
                }
                self.raw2(if op == Bin::SDiv { K::SDiv } else { K::SRem }, w, a, b)
            }
            Bin::And => {
                if a == b || cb == Some(m(w)) {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if let Some(y) = cb {
                    // mask of low bits
                    if (y + 1).is_power_of_two() || y == m(w) {
                        let k = bits(y) as u16;
                        if self.rng[a as usize].1 <= y {
                            return a;
                        }
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    if na.k == K::And {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cst(w, x & y);
                            return self.bin(Bin::And, na.a, c);
                        }
                    }
                    if na.k == K::Ite && (self.as_const(na.b).is_some() && self.as_const(na.c).is_some()) {
                        let x = self.bin(Bin::And, na.b, b);
                        let z = self.bin(Bin::And, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                    // single bit test of a zext/concat
                    if y.is_power_of_two() {
                        let k = y.trailing_zeros();
                        let e = self.extract(a, k, 1);
                        let z = self.zext(e, w);
                        let s = self.cst(w, k as u128);
                        return self.bin(Bin::Shl, z, s);
                    }
                }
                if w == 1 {
                    // a & !a
                    let nb = self.not1(b);
                    if nb == Some(a) || self.not1(a) == Some(b) {
                        return self.cst(1, 0);
                    }
                }
                self.raw2(K::And, w, a, b)
            }
            Bin::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    // disjoint bits: the sum is easier to simplify
                    if w <= 8 && w > 1 && self.rng[a as usize].1 < 1u128 << c.trailing_zeros() {
                        return self.bin(Bin::Add, a, b);
                    }
                }
                if cb == Some(m(w)) {
                    return b;
                }
                if w == 1 && (self.not1(b) == Some(a) || self.not1(a) == Some(b)) {
                    return self.cst(1, 1);
                }
                // or of disjoint shifted pieces -> concat
                if cb.is_none() {
                    if let Some(t) = self.or_concat(a, b).or_else(|| self.or_concat(b, a)) {
                        return t;
                    }
                }
                self.raw2(K::Or, w, a, b)
            }
            Bin::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.k == K::Xor {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cst(w, x ^ y);
                            return self.bin(Bin::Xor, na.a, c);
                        }
                    }
                    if na.k == K::Ite && (self.as_const(na.b).is_some() && self.as_const(na.c).is_some()) {
                        let x = self.bin(Bin::Xor, na.b, b);
                        let z = self.bin(Bin::Xor, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                    if w == 1 && y == 1 {
                        // negated comparisons
                        match na.k {
                            K::Ult => return self.raw_cmp(K::Ule, na.b, na.a),
                            K::Ule => return self.raw_cmp(K::Ult, na.b, na.a),
                            K::Slt => return self.raw_cmp(K::Sle, na.b, na.a),
                            K::Sle => return self.raw_cmp(K::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
                self.raw2(K::Xor, w, a, b)
            }
            Bin::Shl => {
                match cb {
                    Some(0) => return a,
                    Some(s) if s >= w as u128 => return self.cst(w, 0),
                    Some(s) => {
                        if na.k == K::Shl {
                            if let Some(x) = self.as_const(na.b) {
                                let c = self.cst(w, x + s);
                                return self.bin(Bin::Shl, na.a, c);
                            }
                        }
                    }
                    _ => {}
                }
                self.raw2(K::Shl, w, a, b)
            }
            Bin::LShr => {
                match cb {
                    Some(0) => return a,
                    Some(s) if s >= w as u128 => return self.cst(w, 0),
                    Some(s) => {
                        let e = self.extract(a, s as u32, w - s as u16);
                        return self.zext(e, w);
                    }
                    _ => {}
                }
                self.raw2(K::LShr, w, a, b)
            }
            Bin::AShr => {
                if self.rng[a as usize].1 >> (w - 1) == 0 {
                    return self.bin(Bin::LShr, a, b);
                }
                match cb {
                    Some(0) => return a,
                    Some(s) => {
                        let s = (s as u16).min(w - 1);
                        let e = self.extract(a, s as u32, w - s);
                        return self.sext(e, w);
                    }
                    _ => {}
                }
                self.raw2(K::AShr, w, a, b)
            }
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                if let (Some(x), Some(y)) = (ca, cb) {
                    let r = ffold(op, w, x as u64, y as u64);
                    return self.cst(w, r as u128);
                }
                let k = match op {
                    Bin::FAdd => K::FAdd,
                    Bin::FSub => K::FSub,
                    Bin::FMul => K::FMul,
                    Bin::FDiv => K::FDiv,
                    _ => K::FRem,
                };
                self.raw2(k, w, a, b)
            }
        }
    }

    fn not1(&self, a: T) -> Option<T> {
        let n = self.get(a);
        if n.k == K::Xor && n.w == 1 && self.as_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    fn or_concat(&mut self, hi: T, lo: T) -> Option<T> {
        // hi = x << s (low s bits zero), lo < 2^s
        let n = self.get(hi);
        if n.k != K::Shl {
            return None;
        }
        let s = self.as_const(n.b)? as u16;
        let w = n.w;
        if self.rng[lo as usize].1 <= m(s) {
            let l = self.extract(lo, 0, s);
            let h = self.extract(n.a, 0, w - s);
            return Some(self.concat(h, l));
        }
        None
    }

    /// The term without value-preserving width changes.
    fn val(&self, mut t: T) -> T {
        loop {
            let n = self.get(t);
            match n.k {
                K::ZExt => t = n.a,
                K::Extract if n.imm == 0 && self.rng[n.a as usize].1 <= m(n.w) => t = n.a,
                _ => return t,
            }
        }
    }
    fn resize(&mut self, t: T, w: u16) -> T {
        if self.w(t) > w {
            self.extract(t, 0, w)
        } else {
            self.zext(t, w)
        }
    }
    /// (x / c) * c + x % c
    fn recompose(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let nm = self.get(self.val(a));
        let nr = self.get(self.val(b));
        if nm.k != K::Mul || nr.k != K::URem {
            return None;
        }
        let c = self.as_const(nm.b)?;
        if self.as_const(nr.b)? != c {
            return None;
        }
        let nd = self.get(self.val(nm.a));
        let r = self.val(nr.a);
        let rr = self.rng[r as usize].1;
        if nd.k == K::UDiv && self.as_const(nd.b)? == c {
            if self.val(nd.a) != r || rr > m(w) || rr > m(nm.w) {
                return None;
            }
            return Some(self.resize(r, w));
        }
        // ((x / c) % d) * c + x % c
        if nd.k == K::URem {
            let d = self.as_const(nd.b)?;
            let nq = self.get(self.val(nd.a));
            if nq.k != K::UDiv || self.as_const(nq.b)? != c || self.val(nq.a) != r {
                return None;
            }
            let p = c.checked_mul(d)?;
            let wr = self.w(r);
            if p > m(w) || p > m(nm.w) || p > m(wr) {
                return None;
            }
            let pc = self.cst(wr, p);
            let q = self.bin(Bin::URem, r, pc);
            return Some(self.resize(q, w));
        }
        None
    }
    /// Quotient or remainder of k*c*a + b by c, when the sum does not overflow.
    fn div_parts(&mut self, rem: bool, t: T, c: Option<u128>) -> Option<T> {
        let c = c?;
        if c < 2 {
            return None;
        }
        let w = self.w(t);
        let v = self.val(t);
        let n = self.get(v);
        let mul = |s: &Self, x: T| -> Option<(T, u128)> {
            let n = s.get(s.val(x));
            if n.k == K::Mul {
                let y = s.as_const(n.b)?;
                if y % c == 0 && s.rng[n.a as usize].1.checked_mul(y)? <= m(n.w) {
                    return Some((n.a, y / c));
                }
            }
            None
        };
        if n.k == K::Mul {
            let (a, k) = mul(self, v)?;
            if rem {
                return Some(self.cst(w, 0));
            }
            let kk = self.cst(n.w, k);
            let r = self.bin(Bin::Mul, a, kk);
            return Some(self.resize(r, w));
        }
        if n.k == K::Add {
            let (p, b) = match (mul(self, n.a), mul(self, n.b)) {
                (Some(p), _) => (p, n.b),
                (None, Some(p)) => (p, n.a),
                _ => return None,
            };
            let hi = self.rng[p.0 as usize].1.checked_mul(p.1 * c)?.checked_add(self.rng[b as usize].1)?;
            if hi > m(n.w) {
                return None;
            }
            let cc = self.cst(n.w, c);
            if rem {
                let r = self.bin(Bin::URem, b, cc);
                return Some(self.resize(r, w));
            }
            let kk = self.cst(n.w, p.1);
            let a = self.resize(p.0, n.w);
            let x = self.bin(Bin::Mul, a, kk);
            let y = self.bin(Bin::UDiv, b, cc);
            let r = self.bin(Bin::Add, x, y);
            return Some(self.resize(r, w));
        }
        None
    }
    /// Perform a division at a narrower width when both operands fit.
    fn narrow2(&mut self, op: Bin, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let h = bits(self.rng[a as usize].1).max(bits(self.rng[b as usize].1)) as u16;
        let h = h.max(1);
        if h < w && (h <= 64 || w == 128) && h + 4 <= w {
            let x = self.extract_narrow(a, h);
            let y = self.extract_narrow(b, h);
            let r = self.bin(op, x, y);
            return Some(self.zext(r, w));
        }
        None
    }
    fn extract_narrow(&mut self, a: T, h: u16) -> T {
        // prefer pushing the truncation through low-bit arithmetic (it is exact: value fits in h bits)
        self.extract(a, 0, h)
    }

    fn raw_cmp(&mut self, k: K, a: T, b: T) -> T {
        self.mk(Node { k, w: 1, a, b, c: NONE, imm: 0 })
    }

    pub fn cmp(&mut self, p: Pred, a: T, b: T) -> T {
        let w = self.w(a);
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(icmp(p, w, x, y));
        }
        if a == b {
            return self.bool(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle));
        }
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        match p {
            Pred::Eq => {
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return self.bool(false);
                }
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if w == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(0) => return self.not(a),
                        _ => {
                            let x = self.bin(Bin::Xor, a, b);
                            return self.not(x);
                        }
                    }
                }
                if let Some(y) = cb {
                    let n = self.get(a);
                    match n.k {
                        K::ZExt => {
                            let wi = self.w(n.a);
                            let c = self.cst(wi, y);
                            return self.cmp(Pred::Eq, n.a, c);
                        }
                        K::SExt => {
                            let wi = self.w(n.a);
                            if sx(y & m(wi), wi) == sx(y, w) {
                                let c = self.cst(wi, y);
                                return self.cmp(Pred::Eq, n.a, c);
                            } else {
                                return self.bool(false);
                            }
                        }
                        K::Add => {
                            if let Some(x) = self.as_const(n.b) {
                                let c = self.cst(w, y.wrapping_sub(x));
                                return self.cmp(Pred::Eq, n.a, c);
                            }
                        }
                        K::Xor => {
                            if let Some(x) = self.as_const(n.b) {
                                let c = self.cst(w, y ^ x);
                                return self.cmp(Pred::Eq, n.a, c);
                            }
                        }
                        K::Sub => {
                            if y == 0 {
                                return self.cmp(Pred::Eq, n.a, n.b);
                            }
                        }
                        K::Ite => {
                            let (x, z) = (self.as_const(n.b), self.as_const(n.c));
                            if x.is_some() || z.is_some() {
                                let e1 = self.cmp(Pred::Eq, n.b, b);
                                let e2 = self.cmp(Pred::Eq, n.c, b);
                                return self.ite(n.a, e1, e2);
                            }
                        }
                        K::Concat => {
                            let wl = self.w(n.b);
                            let ch = self.cst(w - wl, y >> wl);
                            let cl = self.cst(wl, y);
                            let e1 = self.cmp(Pred::Eq, n.a, ch);
                            let e2 = self.cmp(Pred::Eq, n.b, cl);
                            return self.bin(Bin::And, e1, e2);
                        }
                        K::Shl => {
                            if let Some(s) = self.as_const(n.b) {
                                let s = s as u16;
                                if y & m(s) != 0 {
                                    return self.bool(false);
                                }
                                let e = self.extract(n.a, 0, w - s);
                                let c = self.cst(w - s, y >> s);
                                return self.cmp(Pred::Eq, e, c);
                            }
                        }
                        K::Or if y == 0 => {
                            let z = self.cst(w, 0);
                            let e1 = self.cmp(Pred::Eq, n.a, z);
                            let e2 = self.cmp(Pred::Eq, n.b, z);
                            return self.bin(Bin::And, e1, e2);
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.get(a), self.get(b));
                    if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.cmp(Pred::Eq, na.a, nb.a);
                    }
                    if let Some(t) = self.cmp_narrow(Pred::Eq, a, b) {
                        return t;
                    }
                    if na.k == K::Add && nb.k == K::Add && na.b == nb.b {
                        return self.cmp(Pred::Eq, na.a, nb.a);
                    }
                }
                let (a, b) = if a < b && cb.is_none() { (b, a) } else { (a, b) };
                self.raw_cmp(K::Eq, a, b)
            }
            Pred::Ult => {
                if ra.1 < rb.0 {
                    return self.bool(true);
                }
                if ra.0 >= rb.1 {
                    return self.bool(false);
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Bin::And, na, b);
                }
                if let Some(t) = self.cmp_narrow(p, a, b) {
                    return t;
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.cmp(Pred::Eq, a, z);
                }
                self.raw_cmp(K::Ult, a, b)
            }
            Pred::Ule => {
                if ra.1 <= rb.0 {
                    return self.bool(true);
                }
                if ra.0 > rb.1 {
                    return self.bool(false);
                }
                if let Some(t) = self.cmp_narrow(p, a, b) {
                    return t;
                }
                self.raw_cmp(K::Ule, a, b)
            }
            Pred::Slt | Pred::Sle => {
                let neg = |r: (u128, u128)| -> Option<bool> {
                    if r.1 >> (w - 1) == 0 {
                        Some(false)
                    } else if r.0 >> (w - 1) == 1 {
                        Some(true)
                    } else {
                        None
                    }
                };
                match (neg(ra), neg(rb)) {
                    (Some(x), Some(y)) if x == y => {
                        return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, a, b)
                    }
                    (Some(true), Some(false)) => return self.bool(true),
                    (Some(false), Some(true)) => return self.bool(false),
                    _ => {}
                }
                // sign test
                if p == Pred::Slt && cb == Some(0) {
                    return self.extract(a, w as u32 - 1, 1);
                }
                if p == Pred::Sle && ca == Some(0) {
                    let s = self.extract(b, w as u32 - 1, 1);
                    return self.not(s);
                }
                if p == Pred::Slt && ca == Some(m(w)) {
                    let s = self.extract(b, w as u32 - 1, 1);
                    return self.not(s);
                }
                self.raw_cmp(if p == Pred::Slt { K::Slt } else { K::Sle }, a, b)
            }
            _ => unreachable!(),
        }
    }

    fn cmp_narrow(&mut self, p: Pred, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.get(a), self.get(b));
        let inner = |s: &Self, n: &Node, t: T| -> Option<u16> {
            if n.k == K::ZExt {
                Some(s.w(n.a))
            } else if let Some(c) = s.as_const(t) {
                Some(bits(c) as u16)
            } else if matches!(n.k, K::Mul | K::Add) && n.w >= 32 && bits(s.rng[t as usize].1) + 8 <= n.w as u32 {
                Some(bits(s.rng[t as usize].1) as u16)
            } else {
                None
            }
        };
        let (wa, wb) = (inner(self, &na, a)?, inner(self, &nb, b)?);
        let w = wa.max(wb).max(1);
        if w < na.w {
            let x = self.extract(a, 0, w);
            let y = self.extract(b, 0, w);
            return Some(self.cmp(p, x, y));
        }
        None
    }

    /// The operation of a node applied to other operands of the same widths.
    pub fn rebuild(&mut self, n: Node, a: T, b: T, c: T) -> T {
        let op = match n.k {
            K::Add => Bin::Add,
            K::Sub => Bin::Sub,
            K::Mul => Bin::Mul,
            K::UDiv => Bin::UDiv,
            K::SDiv => Bin::SDiv,
            K::URem => Bin::URem,
            K::SRem => Bin::SRem,
            K::Shl => Bin::Shl,
            K::LShr => Bin::LShr,
            K::AShr => Bin::AShr,
            K::And => Bin::And,
            K::Or => Bin::Or,
            K::Xor => Bin::Xor,
            K::Concat => return self.concat(a, b),
            K::Extract => return self.extract(a, n.imm as u32, n.w),
            K::ZExt => return self.zext(a, n.w),
            K::SExt => return self.sext(a, n.w),
            K::Ite => return self.ite(a, b, c),
            K::Eq => return self.cmp(Pred::Eq, a, b),
            K::Ult => return self.cmp(Pred::Ult, a, b),
            K::Ule => return self.cmp(Pred::Ule, a, b),
            K::Slt => return self.cmp(Pred::Slt, a, b),
            K::Sle => return self.cmp(Pred::Sle, a, b),
            _ => return self.mk(Node { a, b, c, ..n }),
        };
        self.bin(op, a, b)
    }

    // ---- decision trees over constants ----
    fn isfop(op: Bin) -> bool {
        matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem)
    }
    /// True when an operation on `a` and `b` can be pushed through their decision trees.
    fn liftable(&self, a: T, b: T) -> bool {
        let (x, y) = (self.leaves[a as usize] as u32, self.leaves[b as usize] as u32);
        x > 0 && y > 0 && x * y > 1 && x * y <= 70
    }
    fn lift2(&mut self, a: T, b: T, f: &mut dyn FnMut(&mut Terms, T, T) -> T) -> T {
        let na = self.get(a);
        if na.k == K::Ite {
            let x = self.lift2(na.b, b, f);
            let y = self.lift2(na.c, b, f);
            return self.ite(na.a, x, y);
        }
        let nb = self.get(b);
        if nb.k == K::Ite {
            let x = self.lift2(a, nb.b, f);
            let y = self.lift2(a, nb.c, f);
            return self.ite(nb.a, x, y);
        }
        f(self, a, b)
    }
    /// A decision tree equal to the integer term `t` when its range is small.
    fn small_tree(&mut self, t: T, signed: bool, f: &mut dyn FnMut(&mut Terms, T) -> T) -> Option<T> {
        let w = self.w(t);
        let (lo, hi) = self.rng[t as usize];
        let _ = signed;
        if hi - lo > 66 || self.fp[t as usize] {
            return None;
        }
        let c = self.cst(w, hi);
        let mut r = f(self, c);
        let mut last = r;
        let mut v = hi;
        while v > lo {
            v -= 1;
            let c = self.cst(w, v);
            let x = f(self, c);
            if x != last {
                last = x;
                let cond = self.cmp(Pred::Ule, t, c);
                // Values above v keep the tree built so far.
                r = self.ite(cond, x, r);
            }
        }
        Some(r)
    }

    // ---- floating point ----
    pub fn fcmp_raw(&mut self, kind: u8, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (tof(self.w(a), x as u64), tof(self.w(a), y as u64));
            let r = match kind {
                0 => x == y,
                1 => x < y,
                2 => x <= y,
                _ => x.is_nan() || y.is_nan(),
            };
            return self.bool(r);
        }
        if self.liftable(a, b) {
            return self.lift2(a, b, &mut |s, x, y| s.fcmp_raw(kind, x, y));
        }
        self.mk(Node { k: K::FCmp, w: 1, a, b, c: NONE, imm: kind as u128 })
    }
    pub fn fcmp(&mut self, p: FPred, a: T, b: T) -> T {
        match p {
            FPred::False => self.bool(false),
            FPred::True => self.bool(true),
            FPred::Oeq => self.fcmp_raw(0, a, b),
            FPred::Olt => self.fcmp_raw(1, a, b),
            FPred::Ole => self.fcmp_raw(2, a, b),
            FPred::Ogt => self.fcmp_raw(1, b, a),
            FPred::Oge => self.fcmp_raw(2, b, a),
            FPred::Uno => self.fcmp_raw(3, a, b),
            FPred::Ord => {
                let t = self.fcmp_raw(3, a, b);
                self.not(t)
            }
            FPred::One => {
                let x = self.fcmp_raw(1, a, b);
                let y = self.fcmp_raw(1, b, a);
                self.bin(Bin::Or, x, y)
            }
            FPred::Ueq => {
                let t = self.fcmp(FPred::One, a, b);
                self.not(t)
            }
            FPred::Une => {
                let t = self.fcmp_raw(0, a, b);
                self.not(t)
            }
            FPred::Ult => {
                let t = self.fcmp_raw(2, b, a);
                self.not(t)
            }
            FPred::Ule => {
                let t = self.fcmp_raw(1, b, a);
                self.not(t)
            }
            FPred::Ugt => {
                let t = self.fcmp_raw(2, a, b);
                self.not(t)
            }
            FPred::Uge => {
                let t = self.fcmp_raw(1, a, b);
                self.not(t)
            }
        }
    }
    pub fn funary(&mut self, k: K, imm: u128, w: u16, a: T) -> T {
        if let Some(x) = self.as_const(a) {
            let r = f1fold(k, imm, w, self.w(a), x);
            return self.cst(w, r);
        }
        if self.liftable(a, a) || self.leaves[a as usize] > 1 {
            let z = self.cst(1, 0);
            return self.lift2(a, z, &mut |s, x, _| s.funary(k, imm, w, x));
        }
        if matches!(k, K::SiToF | K::UiToF) {
            if let Some(r) = self.small_tree(a, k == K::SiToF, &mut |s, x| s.funary(k, imm, w, x)) {
                return r;
            }
        }
        self.mk(Node { k, w, a, b: NONE, c: NONE, imm })
    }
    pub fn fminmax(&mut self, max: bool, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fmm(max, w, x as u64, y as u64);
            return self.cst(w, r as u128);
        }
        if self.liftable(a, b) {
            return self.lift2(a, b, &mut |s, x, y| s.fminmax(max, x, y));
        }
        self.raw2(if max { K::FMax } else { K::FMin }, w, a, b)
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.as_const(a), self.as_const(b), self.as_const(c)) {
            let r = fmafold(w, x as u64, y as u64, z as u64);
            return self.cst(w, r as u128);
        }
        self.mk(Node { k: K::Fma, w, a, b, c, imm: 0 })
    }
    pub fn uf(&mut self, name: &str, w: u16, args: &[T]) -> T {
        let id = match self.ufs.iter().position(|x| x == name) {
            Some(i) => i,
            None => {
                self.ufs.push(name.to_string());
                self.ufs.len() - 1
            }
        };
        let g = |i: usize| args.get(i).copied().unwrap_or(NONE);
        self.mk(Node { k: K::Uf, w, a: g(0), b: g(1), c: g(2), imm: id as u128 })
    }

    // ---- evaluation under an assignment ----
    pub fn eval(&self, t: T, vals: &[u128], memo: &mut FxMap<T, u128>) -> u128 {
        let n = &self.n[t as usize];
        match n.k {
            K::Const => return n.imm,
            K::Var => return vals.get(n.imm as usize).copied().unwrap_or(self.rng[t as usize].0),
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n[x as usize];
            match n.k {
                K::Const => {
                    memo.insert(x, n.imm);
                    stack.pop();
                    continue;
                }
                K::Var => {
                    let v = vals.get(n.imm as usize).copied().unwrap_or(self.rng[x as usize].0);
                    memo.insert(x, v);
                    stack.pop();
                    continue;
                }
                _ => {}
            }
            let mut ready = true;
            for y in [n.a, n.b, n.c] {
                if y != NONE && !memo.contains_key(&y) {
                    stack.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |y: T| if y == NONE { 0 } else { memo[&y] };
            let (a, b, c) = (g(n.a), g(n.b), g(n.c));
            let wa = if n.a == NONE { 0 } else { self.w(n.a) };
            let wb = if n.b == NONE { 0 } else { self.w(n.b) };
            let v = eval_node(&n, wa, wb, a, b, c);
            memo.insert(x, v & m(n.w));
            stack.pop();
        }
        memo[&t]
    }

    pub fn show(&self, t: T, depth: usize) -> String {
        let n = self.get(t);
        match n.k {
            K::Const => format!("{:#x}:{}", n.imm, n.w),
            K::Var => format!("{}:{}", self.vars[n.imm as usize].name, n.w),
            _ if depth == 0 => format!("#{}", t),
            _ => {
                let mut s = format!("({:?}", n.k);
                if n.imm != 0 {
                    s += &format!("[{}]", n.imm);
                }
                for y in [n.a, n.b, n.c] {
                    if y != NONE {
                        s += " ";
                        s += &self.show(y, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

pub fn eval_node(n: &Node, wa: u16, wb: u16, a: u128, b: u128, c: u128) -> u128 {
    match n.k {
        K::Add => fold(Bin::Add, n.w, a, b).unwrap(),
        K::Sub => fold(Bin::Sub, n.w, a, b).unwrap(),
        K::Mul => fold(Bin::Mul, n.w, a, b).unwrap(),
        // SMT-LIB semantics for division by zero
        K::UDiv => {
            if b == 0 {
                m(n.w)
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            if b == 0 {
                if sx(a, n.w) < 0 {
                    1
                } else {
                    m(n.w)
                }
            } else {
                sx(a, n.w).wrapping_div(sx(b, n.w)) as u128
            }
        }
        K::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, n.w).wrapping_rem(sx(b, n.w)) as u128
            }
        }
        K::Shl => {
            if b >= n.w as u128 {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= n.w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let s = if b >= n.w as u128 { n.w as u32 - 1 } else { b as u32 };
            (sx(a, n.w) >> s) as u128
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Concat => (a << wb) | b,
        K::Extract => (a >> n.imm) & m(n.w),
        K::ZExt => a,
        K::SExt => sx(a, wa) as u128,
        K::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        K::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        K::FAdd => ffold(Bin::FAdd, n.w, a as u64, b as u64) as u128,
        K::FSub => ffold(Bin::FSub, n.w, a as u64, b as u64) as u128,
        K::FMul => ffold(Bin::FMul, n.w, a as u64, b as u64) as u128,
        K::FDiv => ffold(Bin::FDiv, n.w, a as u64, b as u64) as u128,
        K::FRem => ffold(Bin::FRem, n.w, a as u64, b as u64) as u128,
        K::Fma => fmafold(n.w, a as u64, b as u64, c as u64) as u128,
        K::FSqrt | K::FRound | K::FToSi | K::FToUi | K::SiToF | K::UiToF | K::FConv => f1fold(n.k, n.imm, n.w, wa, a),
        K::FCmp => {
            let (x, y) = (tof(wa, a as u64), tof(wa, b as u64));
            (match n.imm {
                0 => x == y,
                1 => x < y,
                2 => x <= y,
                _ => x.is_nan() || y.is_nan(),
            }) as u128
        }
        K::FMin => fmm(false, n.w, a as u64, b as u64) as u128,
        K::FMax => fmm(true, n.w, a as u64, b as u64) as u128,
        K::Uf => 0,
        K::Const | K::Var => n.imm,
    }
}

pub fn bits(x: u128) -> u32 {
    128 - x.leading_zeros()
}

pub fn fold(op: Bin, w: u16, a: u128, b: u128) -> Option<u128> {
    let mm = m(w);
    Some(
        (match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Bin::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Bin::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
            Bin::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
            Bin::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Bin::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bin::AShr => {
                let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
                (sx(a, w) >> s) as u128
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
            _ => return None,
        }) & mm,
    )
}

pub fn icmp(p: Pred, w: u16, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

pub fn tof(w: u16, x: u64) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}

pub fn ffold(op: Bin, w: u16, a: u64, b: u64) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Bin::FAdd => x + y,
            Bin::FSub => x - y,
            Bin::FMul => x * y,
            Bin::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits() as u64
    } else {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        let r = match op {
            Bin::FAdd => x + y,
            Bin::FSub => x - y,
            Bin::FMul => x * y,
            Bin::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits()
    }
}

pub fn fmafold(w: u16, a: u64, b: u64, c: u64) -> u64 {
    if w == 32 {
        f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u64
    } else {
        f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c)).to_bits()
    }
}

fn fmm(max: bool, w: u16, a: u64, b: u64) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (if max { x.max(y) } else { x.min(y) }).to_bits() as u64
    } else {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        (if max { x.max(y) } else { x.min(y) }).to_bits()
    }
}

pub fn f1fold(k: K, imm: u128, w: u16, wa: u16, a: u128) -> u128 {
    let rnd64 = |x: f64| match imm {
        0 => x.round(),
        1 => x.floor(),
        2 => x.ceil(),
        3 => x.trunc(),
        _ => x.round_ties_even(),
    };
    match k {
        K::FSqrt => {
            if wa == 32 {
                f32::from_bits(a as u32).sqrt().to_bits() as u128
            } else {
                f64::from_bits(a as u64).sqrt().to_bits() as u128
            }
        }
        K::FRound => {
            if wa == 32 {
                // exact in double
                (rnd64(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128
            } else {
                rnd64(f64::from_bits(a as u64)).to_bits() as u128
            }
        }
        K::FToSi => {
            let x = tof(wa, a as u64);
            let r = x as i128; // saturating, NaN -> 0
            let lo = -(1i128 << (w - 1));
            let hi = (1i128 << (w - 1)) - 1;
            (r.clamp(lo, hi) as u128) & m(w)
        }
        K::FToUi => {
            let x = tof(wa, a as u64);
            let r = x as u128;
            r.min(m(w))
        }
        K::SiToF => {
            let v = sx(a, wa);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        K::UiToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        K::FConv => {
            if wa == 32 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            }
        }
        _ => unreachable!(),
    }
}
