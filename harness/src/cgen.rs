//! C12 generated C. Rust functions are generated from trees, translated by the generator, read back with
//! this file's own reader of C, and both are reduced to the value the function returns.
use crate::common::*;
use doctor_syn::codegen::c::{to_c, Options};
use std::rc::Rc;
use symrt::*;

/// Types both languages have.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    F32,
    F64,
    I32,
    I64,
    U32,
    U64,
    Bool,
    Void,
}
/// A value: what a function computes from its parameters.
#[derive(Clone, Debug)]
pub enum V {
    Param(usize),
    /// Integer literal: value and type (None: not written).
    Int(u64, Option<T>),
    /// Float literal: digits without point, power of ten, type.
    Flt(Vec<u8>, i32, Option<T>),
    Un(u8, Rc<V>),
    Bin(u8, Rc<V>, Rc<V>),
    Cond(Rc<V>, Rc<V>, Rc<V>),
    /// Library function: name, single precision.
    Lib(&'static str, bool, Vec<Rc<V>>),
    /// Function of the file, by position.
    Fun(usize, Vec<Rc<V>>),
    Cast(T, Rc<V>),
    /// Held in a variable of this type.
    Held(T, Rc<V>),
    Bits(T, T, Rc<V>),
    Comma(Rc<V>, Rc<V>),
    Undef,
    Nothing,
}
use V::*;

// ---- Rust side ----
#[derive(Clone)]
pub enum R {
    Id(Vec<u8>),
    Num(Vec<u8>, V),
    Neg(Box<R>),
    Not(Box<R>),
    Bin(u8, Box<R>, Box<R>),
    Par(Box<R>),
    If(Box<R>, Box<Blk>, Box<Else>),
    Block(Box<Blk>),
    Meth(Box<R>, &'static str, Vec<R>),
    Call(Vec<u8>, Vec<R>),
    FromBits(&'static str, Box<R>),
    Cast(Box<R>, &'static str),
}
#[derive(Clone)]
pub enum Else {
    Blk(Blk),
    If(R),
}
#[derive(Clone)]
pub enum St {
    Let(Vec<u8>, Option<&'static str>, R),
    Set(Vec<u8>, Option<u8>, R),
}
#[derive(Clone)]
pub struct Blk(pub Vec<St>, pub R);
#[derive(Clone)]
pub enum Item {
    Type(&'static str, &'static str),
    Const(Vec<u8>, &'static str, R),
    Fn(Vec<u8>, Vec<(Vec<u8>, &'static str)>, &'static str, Blk),
}
fn put(o: &mut Vec<u8>, t: &str) {
    o.extend_from_slice(t.as_bytes());
}
fn rprec(r: &R) -> u8 {
    match r {
        R::Bin(op, ..) => prec(*op),
        R::Cast(..) => 11,
        R::Neg(..) | R::Not(..) => 12,
        R::If(..) | R::Block(..) => 1,
        _ => 20,
    }
}
/// Prints with the parentheses Rust needs.
fn rprint(r: &R, min: u8, o: &mut Vec<u8>) {
    if rprec(r) < min {
        put(o, "(");
        rprint(r, 0, o);
        put(o, ")");
        return;
    }
    match r {
        R::Id(t) | R::Num(t, _) => o.extend_from_slice(t),
        R::Neg(x) => {
            put(o, "-");
            rprint(x, 12, o);
        }
        R::Not(x) => {
            put(o, "!");
            rprint(x, 12, o);
        }
        R::Bin(op, l, r) => {
            let p = prec(*op);
            let lp = if p == 4 { 5 } else { p };
            rprint(l, if matches!(op, 5 | 12 | 13) && matches!(**l, R::Cast(..)) { 12 } else { lp }, o);
            put(o, " ");
            put(o, OPS[*op as usize]);
            put(o, " ");
            rprint(r, p + 1, o);
        }
        R::Par(x) => {
            put(o, "(");
            rprint(x, 0, o);
            put(o, ")");
        }
        R::If(c, t, f) => {
            put(o, "if ");
            rprint(c, 0, o);
            bprint(t, o);
            put(o, "else ");
            match &**f {
                Else::Blk(b) => bprint(b, o),
                Else::If(r) => rprint(r, 0, o),
            }
        }
        R::Block(b) => bprint(b, o),
        R::Meth(r, n, v) => {
            rprint(r, 20, o);
            put(o, ".");
            put(o, n);
            rargs(v, o);
        }
        R::Call(n, v) => {
            o.extend_from_slice(n);
            rargs(v, o);
        }
        R::FromBits(t, x) => {
            put(o, t);
            put(o, "::from_bits(");
            rprint(x, 0, o);
            put(o, ")");
        }
        R::Cast(x, t) => {
            rprint(x, 11, o);
            put(o, " as ");
            put(o, t);
        }
    }
}
fn rargs(v: &[R], o: &mut Vec<u8>) {
    put(o, "(");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            put(o, ", ");
        }
        rprint(x, 0, o);
    }
    put(o, ")");
}
fn bprint(b: &Blk, o: &mut Vec<u8>) {
    put(o, "{ ");
    for s in &b.0 {
        match s {
            St::Let(n, t, x) => {
                put(o, "let mut ");
                o.extend_from_slice(n);
                if let Some(t) = t {
                    put(o, ": ");
                    put(o, t);
                }
                put(o, " = ");
                rprint(x, 0, o);
                put(o, "; ");
            }
            St::Set(n, op, x) => {
                o.extend_from_slice(n);
                put(o, " ");
                if let Some(op) = op {
                    put(o, OPS[*op as usize]);
                }
                put(o, "= ");
                rprint(x, 0, o);
                put(o, "; ");
            }
        }
    }
    // A block or if at the start of a statement is a statement.
    if matches!(b.1, R::Bin(..) | R::Cast(..)) {
        rprint(&b.1, 0, o);
    } else {
        rprint(&b.1, 0, o);
    }
    put(o, " }");
}
fn iprint(i: &Item, o: &mut Vec<u8>) {
    match i {
        Item::Type(n, t) => put(o, &format!("type {} = {};\n", n, t)),
        Item::Const(n, t, x) => {
            put(o, "const ");
            o.extend_from_slice(n);
            put(o, ": ");
            put(o, t);
            put(o, " = ");
            rprint(x, 0, o);
            put(o, ";\n");
        }
        Item::Fn(n, ps, t, b) => {
            put(o, "pub fn ");
            o.extend_from_slice(n);
            put(o, "(");
            for (i, (p, t)) in ps.iter().enumerate() {
                if i > 0 {
                    put(o, ", ");
                }
                o.extend_from_slice(p);
                put(o, ": ");
                put(o, t);
            }
            put(o, ") -> ");
            put(o, t);
            bprint(b, o);
            put(o, "\n");
        }
    }
}
type Env = Vec<(Vec<u8>, Rc<V>)>;
fn find(env: &Env, n: &[u8]) -> Option<usize> {
    for i in (0..env.len()).rev() {
        if eqb(&env[i].0, n) {
            return Some(i);
        }
    }
    None
}
struct Rust<'a> {
    items: &'a [Item],
}
impl<'a> Rust<'a> {
    fn ty(&self, t: &str) -> T {
        match t {
            "f32" => T::F32,
            "f64" => T::F64,
            "i32" => T::I32,
            "i64" => T::I64,
            "u32" => T::U32,
            "u64" => T::U64,
            "bool" => T::Bool,
            _ => {
                for i in self.items {
                    if let Item::Type(n, u) = i {
                        if *n == t {
                            return self.ty(u);
                        }
                    }
                }
                panic!("type {}", t)
            }
        }
    }
    fn fun(&self, n: &[u8]) -> usize {
        let mut k = 0;
        for i in self.items {
            if let Item::Fn(m, ..) = i {
                if eqb(m, n) {
                    return k;
                }
                k += 1;
            }
        }
        panic!("no such function")
    }
    fn ev(&self, r: &R, env: &mut Env) -> Rc<V> {
        Rc::new(match r {
            R::Id(n) => {
                if let Some(i) = find(env, n) {
                    return env[i].1.clone();
                }
                for i in self.items {
                    if let Item::Const(m, t, x) = i {
                        if eqb(m, n) {
                            let v = self.ev(x, &mut vec![]);
                            return Rc::new(Held(self.ty(t), v));
                        }
                    }
                }
                Undef
            }
            R::Num(_, v) => v.clone(),
            R::Neg(x) => Un(b'-', self.ev(x, env)),
            R::Not(x) => Un(b'!', self.ev(x, env)),
            R::Bin(op, l, r) => {
                let l = self.ev(l, env);
                Bin(*op, l, self.ev(r, env))
            }
            R::Par(x) => return self.ev(x, env),
            R::If(c, t, f) => {
                let c = self.ev(c, env);
                let t = self.blk(t, env);
                let f = match &**f {
                    Else::Blk(b) => self.blk(b, env),
                    Else::If(r) => self.ev(r, env),
                };
                Cond(c, t, f)
            }
            R::Block(b) => return self.blk(b, env),
            R::Meth(x, n, v) => {
                let mut a = vec![self.ev(x, env)];
                for y in v {
                    a.push(self.ev(y, env));
                }
                if *n == "to_bits" {
                    let (f, u) = (self.ty("fty"), self.ty("uty"));
                    return Rc::new(Bits(f, u, a.pop().unwrap()));
                }
                Lib(n, false, a)
            }
            R::Call(n, v) => Fun(self.fun(n), v.iter().map(|y| self.ev(y, env)).collect()),
            R::FromBits(t, x) => {
                let f = self.ty(t);
                Bits(if f == T::F32 { T::U32 } else { T::U64 }, f, self.ev(x, env))
            }
            R::Cast(x, t) => Cast(self.ty(t), self.ev(x, env)),
        })
    }
    fn blk(&self, b: &Blk, env: &mut Env) -> Rc<V> {
        let n = env.len();
        for s in &b.0 {
            match s {
                St::Let(m, t, x) => {
                    let mut v = self.ev(x, env);
                    if let Some(t) = t {
                        v = Rc::new(Held(self.ty(t), v));
                    }
                    env.push((m.clone(), v));
                }
                St::Set(m, op, x) => {
                    let v = self.ev(x, env);
                    let i = find(env, m).expect("assigned variable");
                    let v = match op {
                        None => v,
                        Some(op) => Rc::new(Bin(*op, env[i].1.clone(), v)),
                    };
                    env[i].1 = v;
                }
            }
        }
        let v = self.ev(&b.1, env);
        env.truncate(n);
        v
    }
}
/// A function: parameter types, result type, value. None: not a function.
struct F {
    name: Vec<u8>,
    params: Vec<T>,
    ret: T,
    val: Rc<V>,
}
fn rust_side(items: &[Item]) -> Vec<F> {
    let r = Rust { items };
    let mut o = vec![];
    for i in items {
        if let Item::Fn(n, ps, t, b) = i {
            let mut env: Env = vec![];
            for (k, (p, _)) in ps.iter().enumerate() {
                env.push((p.clone(), Rc::new(Param(k))));
            }
            o.push(F { name: n.clone(), params: ps.iter().map(|p| r.ty(p.1)).collect(), ret: r.ty(t), val: r.blk(b, &mut env) });
        }
    }
    o
}

// ---- C side ----
#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(Vec<u8>),
    Num(Vec<u8>),
    P(&'static str),
    End,
}
const CP: &[&str] = &[
    "<<=", ">>=", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "++", "--", "->", "+", "-", "*", "/", "%", "<", ">", "=", "!", "~", "&", "|", "^", "?", ":", ";", ",", "(", ")",
    "{", "}", "[", "]", ".", "#",
];
fn lex(t: &[u8]) -> Option<Vec<Tok>> {
    let mut o = vec![];
    let mut i = 0;
    // Bytes of the alphabet the inputs use; letters and digits may be symbolic.
    let alpha = |c: u8| c == b'_' || c.is_ascii_alphabetic();
    while i < t.len() {
        let c = t[i];
        if c == b' ' || c == b'\n' {
            i += 1;
        } else if alpha(c) {
            let s = i;
            while i < t.len() && (alpha(t[i]) || t[i].is_ascii_digit()) {
                i += 1;
            }
            o.push(Tok::Id(t[s..i].to_vec()));
        } else if c.is_ascii_digit() || (c == b'.' && i + 1 < t.len() && t[i + 1].is_ascii_digit()) {
            let s = i;
            while i < t.len() && (alpha(t[i]) || t[i].is_ascii_digit() || t[i] == b'.' || ((t[i] == b'+' || t[i] == b'-') && matches!(t[i - 1], b'e' | b'E'))) {
                i += 1;
            }
            o.push(Tok::Num(t[s..i].to_vec()));
        } else {
            let mut hit = None;
            for p in CP {
                if t[i..].starts_with(p.as_bytes()) {
                    hit = Some(*p);
                    break;
                }
            }
            let p = hit?;
            i += p.len();
            o.push(Tok::P(p));
        }
    }
    o.push(Tok::End);
    Some(o)
}
#[derive(Clone)]
enum Sym {
    Var(Rc<V>),
    Type(T),
    Fun(usize),
}
struct Cc {
    t: Vec<Tok>,
    i: usize,
    env: Vec<(Vec<u8>, Sym)>,
    funs: Vec<F>,
    scope: Vec<usize>,
}
const KEY: &[&str] = &["int", "float", "double", "unsigned", "long", "const", "union", "return", "typedef", "void", "if", "else", "while", "for", "do", "__auto_type", "struct", "_Bool", "break", "char", "short", "signed", "static", "switch", "case", "default", "goto", "continue", "register", "volatile", "extern", "auto", "enum", "sizeof", "inline", "restrict"];
/// Functions of <math.h>: C name, Rust method it agrees with, number of arguments.
const LIB: &[(&str, &str, usize)] = &[
    ("fabs", "abs", 1), ("sqrt", "sqrt", 1), ("cbrt", "cbrt", 1), ("sin", "sin", 1), ("cos", "cos", 1), ("tan", "tan", 1),
    ("asin", "asin", 1), ("acos", "acos", 1), ("atan", "atan", 1), ("sinh", "sinh", 1), ("cosh", "cosh", 1), ("tanh", "tanh", 1),
    ("asinh", "asinh", 1), ("acosh", "acosh", 1), ("atanh", "atanh", 1), ("exp", "exp", 1), ("exp2", "exp2", 1), ("expm1", "exp_m1", 1),
    ("log", "ln", 1), ("log2", "log2", 1), ("log10", "log10", 1), ("log1p", "ln_1p", 1), ("floor", "floor", 1), ("ceil", "ceil", 1),
    ("trunc", "trunc", 1), ("round", "round", 1), ("rint", "round_ties_even", 1), ("nearbyint", "round_ties_even", 1), ("pow", "powf", 2), ("atan2", "atan2", 2), ("hypot", "hypot", 2),
    ("copysign", "copysign", 2), ("fmin", "min", 2), ("fmax", "max", 2), ("fma", "mul_add", 3), ("fmod", "fmod", 2), ("abs", "integer abs", 1), ("erf", "erf", 1), ("tgamma", "gamma", 1), ("fdim", "abs_sub", 2), ("isnan", "is_nan", 1),
    ("signbit", "is_sign_negative", 1),
];
impl Cc {
    fn p(&self, p: &str) -> bool {
        matches!(&self.t[self.i], Tok::P(q) if *q == p)
    }
    fn eat(&mut self, p: &str) -> Option<()> {
        if self.p(p) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&self, w: &str) -> bool {
        matches!(&self.t[self.i], Tok::Id(q) if eqb(q, w.as_bytes()))
    }
    fn name(&mut self) -> Option<Vec<u8>> {
        match &self.t[self.i] {
            Tok::Id(n) => {
                let n = n.clone();
                // Only short names of the input are symbolic; keywords have more letters.
                if n.len() > 1 && KEY.iter().any(|k| eqb(k.as_bytes(), &n)) {
                    return None;
                }
                self.i += 1;
                Some(n)
            }
            _ => None,
        }
    }
    fn lookup(&self, n: &[u8]) -> Option<Sym> {
        for (m, s) in self.env.iter().rev() {
            if eqb(m, n) {
                return Some(s.clone());
            }
        }
        None
    }
    fn declare(&mut self, n: Vec<u8>, s: Sym) -> Option<()> {
        let from = *self.scope.last().unwrap();
        for k in from..self.env.len() {
            if eqb(&self.env[k].0, &n) {
                return None; // declared twice
            }
        }
        self.env.push((n, s));
        Some(())
    }
    /// A type, if one stands here.
    fn ty(&mut self) -> Option<T> {
        let s = self.i;
        let (mut uns, mut long, mut base) = (false, 0, None);
        loop {
            match &self.t[self.i] {
                Tok::Id(n) if n.len() > 1 => match &n[..] {
                    b"unsigned" => uns = true,
                    b"long" => long += 1,
                    b"int" => base = Some(T::I32),
                    b"float" => base = Some(T::F32),
                    b"double" => base = Some(T::F64),
                    b"_Bool" => base = Some(T::Bool),
                    b"void" => base = Some(T::Void),
                    b"const" => {}
                    _ => break,
                },
                _ => break,
            }
            self.i += 1;
        }
        let r = match (uns, long, base) {
            (false, 0, Some(b)) => Some(b),
            (true, 0, None) | (true, 0, Some(T::I32)) => Some(T::U32),
            (u, 1 | 2, None) | (u, 1 | 2, Some(T::I32)) => Some(if u { T::U64 } else { T::I64 }),
            (false, 0, None) => {
                let mut r = None;
                if let Tok::Id(n) = &self.t[self.i] {
                    let n = n.clone();
                    if let Some(Sym::Type(t)) = self.lookup(&n) {
                        self.i += 1;
                        r = Some(t);
                    }
                }
                r
            }
            _ => None,
        };
        if r.is_none() {
            self.i = s;
        }
        r
    }
    fn file(&mut self) -> Option<()> {
        loop {
            if self.t[self.i] == Tok::End {
                return Some(());
            }
            if self.eat("#").is_some() {
                if !self.word("include") {
                    return None;
                }
                self.i += 1;
                while !self.p(">") {
                    if self.t[self.i] == Tok::End {
                        return None;
                    }
                    self.i += 1;
                }
                self.i += 1;
                continue;
            }
            if self.eat(";").is_some() {
                continue;
            }
            if self.word("typedef") {
                self.i += 1;
                let t = self.ty()?;
                let n = self.name()?;
                self.eat(";")?;
                self.declare(n, Sym::Type(t))?;
                continue;
            }
            if self.word("static") || self.word("inline") {
                self.i += 1;
                continue;
            }
            let t = self.ty()?;
            let n = self.name()?;
            if self.eat("(").is_some() {
                self.scope.push(self.env.len());
                let mark = self.env.len();
                let mut params = vec![];
                if self.word("void") {
                    self.i += 1;
                    self.eat(")")?;
                } else if self.eat(")").is_none() {
                    loop {
                        let t = self.ty()?;
                        let m = self.name()?;
                        self.declare(m, Sym::Var(Rc::new(Param(params.len()))))?;
                        params.push(t);
                        if self.eat(",").is_none() {
                            self.eat(")")?;
                            break;
                        }
                    }
                }
                let k = self.funs.len();
                self.funs.push(F { name: n.clone(), params, ret: t, val: Rc::new(Nothing) });
                // The function's own name is in scope in its body.
                self.env.insert(mark, (n.clone(), Sym::Fun(k)));
                *self.scope.last_mut().unwrap() += 1;
                let v = self.body()?;
                self.funs[k].val = v;
                self.scope.pop();
                self.env.truncate(mark);
                self.declare(n, Sym::Fun(k))?;
            } else {
                self.eat("=")?;
                let v = self.assign()?;
                self.eat(";")?;
                self.declare(n, Sym::Var(Rc::new(Held(t, v))))?;
            }
        }
    }
    fn body(&mut self) -> Option<Rc<V>> {
        self.eat("{")?;
        let mut out = None;
        while self.eat("}").is_none() {
            if self.eat(";").is_some() {
                continue;
            }
            if self.word("return") {
                self.i += 1;
                let v = self.expr()?;
                self.eat(";")?;
                if out.is_none() {
                    out = Some(v);
                }
            } else {
                self.stmt()?;
            }
        }
        out
    }
    /// A declaration or expression statement; the value of the latter.
    fn stmt(&mut self) -> Option<Rc<V>> {
        let auto = self.word("__auto_type");
        let t = if auto {
            self.i += 1;
            None
        } else {
            let s = self.i;
            match self.ty() {
                Some(t) => Some(t),
                None => {
                    self.i = s;
                    let v = self.expr()?;
                    self.eat(";")?;
                    return Some(v);
                }
            }
        };
        let n = self.name()?;
        if auto {
            self.eat("=")?;
            let v = self.assign()?;
            self.eat(";")?;
            self.declare(n, Sym::Var(v))?;
            return Some(Rc::new(Nothing));
        }
        let t = t.unwrap();
        self.declare(n, Sym::Var(Rc::new(Undef)))?;
        let k = self.env.len() - 1;
        if self.eat("=").is_some() {
            let v = self.assign()?;
            self.env[k].1 = Sym::Var(Rc::new(Held(t, v)));
        }
        self.eat(";")?;
        Some(Rc::new(Nothing))
    }
    fn expr(&mut self) -> Option<Rc<V>> {
        let mut v = self.assign()?;
        while self.eat(",").is_some() {
            let w = self.assign()?;
            v = Rc::new(Comma(v, w));
        }
        Some(v)
    }
    fn assign(&mut self) -> Option<Rc<V>> {
        // lvalue = ...
        if let (Tok::Id(n), Tok::P(p)) = (&self.t[self.i], &self.t[self.i + 1]) {
            let op = match *p {
                "=" => Some(None),
                "+=" => Some(Some(0)),
                "-=" => Some(Some(1)),
                "*=" => Some(Some(2)),
                "/=" => Some(Some(3)),
                "%=" => Some(Some(4)),
                "<<=" => Some(Some(5)),
                ">>=" => Some(Some(6)),
                "&=" => Some(Some(7)),
                "^=" => Some(Some(8)),
                "|=" => Some(Some(9)),
                _ => None,
            };
            if let Some(op) = op {
                let n = n.clone();
                self.i += 2;
                let mut v = self.assign()?;
                for k in (0..self.env.len()).rev() {
                    if eqb(&self.env[k].0, &n) {
                        let Sym::Var(old) = self.env[k].1.clone() else { return None };
                        if let Some(op) = op {
                            v = Rc::new(Bin(op, old, v));
                        }
                        self.env[k].1 = Sym::Var(v.clone());
                        return Some(v);
                    }
                }
                return None;
            }
        }
        let c = self.binary(0)?;
        if self.eat("?").is_some() {
            let t = self.expr()?;
            self.eat(":")?;
            let f = self.assign_or_cond()?;
            return Some(Rc::new(Cond(c, t, f)));
        }
        Some(c)
    }
    fn assign_or_cond(&mut self) -> Option<Rc<V>> {
        self.assign()
    }
    fn binary(&mut self, level: usize) -> Option<Rc<V>> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", ">", "<=", ">="], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if level == L.len() {
            return self.unary();
        }
        let mut l = self.binary(level + 1)?;
        loop {
            let Some(op) = L[level].iter().find(|p| self.p(p)) else { return Some(l) };
            self.i += 1;
            let r = self.binary(level + 1)?;
            let n = OPS.iter().position(|q| q == op).unwrap() as u8;
            l = Rc::new(Bin(n, l, r));
        }
    }
    fn unary(&mut self) -> Option<Rc<V>> {
        for (p, c) in [("-", b'-'), ("!", b'!'), ("~", b'~')] {
            if self.eat(p).is_some() {
                let x = self.unary()?;
                return Some(Rc::new(Un(c, x)));
            }
        }
        if self.eat("+").is_some() {
            return self.unary();
        }
        if self.p("(") {
            let s = self.i;
            self.i += 1;
            if let Some(t) = self.ty() {
                if self.eat(")").is_some() && !self.p("{") {
                    let x = self.unary()?;
                    return Some(Rc::new(Cast(t, x)));
                }
            }
            self.i = s;
        }
        self.postfix()
    }
    fn postfix(&mut self) -> Option<Rc<V>> {
        if self.eat("(").is_some() {
            if self.p("{") {
                let v = self.braces()?;
                self.eat(")")?;
                return Some(v);
            }
            if self.word("union") {
                return self.union();
            }
            if self.p("(") && matches!(&self.t[self.i + 1], Tok::Id(n) if eqb(n, b"union")) {
                self.i += 1;
                let v = self.union_value()?;
                self.eat(")")?;
                return self.member(v);
            }
            let v = self.expr()?;
            self.eat(")")?;
            return Some(v);
        }
        match self.t[self.i].clone() {
            Tok::Num(t) => {
                self.i += 1;
                number(&t)
            }
            Tok::Id(_) => {
                let n = self.name()?;
                if self.eat("(").is_some() {
                    let mut a = vec![];
                    if self.eat(")").is_none() {
                        loop {
                            a.push(self.assign()?);
                            if self.eat(",").is_none() {
                                self.eat(")")?;
                                break;
                            }
                        }
                    }
                    return match self.lookup(&n) {
                        Some(Sym::Fun(k)) => {
                            if self.funs[k].params.len() != a.len() {
                                return None;
                            }
                            Some(Rc::new(Fun(k, a)))
                        }
                        Some(_) => None,
                        None => {
                            for (c, m, k) in LIB {
                                let single = n.len() == c.len() + 1 && n[n.len() - 1] == b'f' && eqb(&n[..n.len() - 1], c.as_bytes());
                                if single || eqb(&n, c.as_bytes()) {
                                    return if a.len() == *k { Some(Rc::new(Lib(m, single, a))) } else { None };
                                }
                            }
                            None
                        }
                    };
                }
                match self.lookup(&n)? {
                    Sym::Var(v) => Some(v),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// `({ ... })`: the value of the last statement if that is an expression.
    fn braces(&mut self) -> Option<Rc<V>> {
        self.eat("{")?;
        self.scope.push(self.env.len());
        let mut last = Rc::new(Nothing);
        while self.eat("}").is_none() {
            if self.eat(";").is_some() {
                last = Rc::new(Nothing);
                continue;
            }
            last = self.stmt()?;
        }
        let m = self.scope.pop().unwrap();
        self.env.truncate(m);
        Some(last)
    }
    /// `union { T a; U b; }) { value }` after an opening parenthesis: members, value.
    fn union_value(&mut self) -> Option<(Vec<(T, Vec<u8>)>, Rc<V>)> {
        self.i += 1;
        self.eat("{")?;
        let mut m = vec![];
        while self.eat("}").is_none() {
            let t = self.ty()?;
            let n = self.name()?;
            self.eat(";")?;
            m.push((t, n));
        }
        self.eat(")")?;
        self.eat("{")?;
        if self.eat(".").is_some() {
            // a designated member comes first
            let n = self.name()?;
            self.eat("=")?;
            let k = m.iter().position(|x| eqb(&x.1, &n))?;
            m.swap(0, k);
        }
        let v = self.assign()?;
        self.eat(",");
        self.eat("}")?;
        Some((m, v))
    }
    fn union(&mut self) -> Option<Rc<V>> {
        let v = self.union_value()?;
        self.member(v)
    }
    fn member(&mut self, (m, v): (Vec<(T, Vec<u8>)>, Rc<V>)) -> Option<Rc<V>> {
        self.eat(".")?;
        let n = self.name()?;
        for (t, k) in &m {
            if eqb(k, &n) {
                return Some(Rc::new(Bits(m[0].0, *t, v)));
            }
        }
        None
    }
}
/// A C number.
fn number(t: &[u8]) -> Option<Rc<V>> {
    let hex = t.len() > 2 && t[0] == b'0' && (t[1] == b'x' || t[1] == b'X');
    if !hex && t.iter().any(|c| *c == b'.' || *c == b'e' || *c == b'E') {
        let n = t.len();
        let (d, ty) = match t[n - 1] {
            b'f' | b'F' => (&t[..n - 1], T::F32),
            _ => (t, T::F64),
        };
        return Some(Rc::new(float(d, Some(ty))?));
    }
    let mut n = t.len();
    let (mut u, mut l) = (false, 0);
    while n > 0 && matches!(t[n - 1], b'u' | b'U' | b'l' | b'L') {
        n -= 1;
        if matches!(t[n], b'u' | b'U') {
            u = true;
        } else {
            l += 1;
        }
    }
    if l > 2 {
        return None;
    }
    let (d, base) = if hex {
        (&t[2..n], 16)
    } else if n > 1 && t[0] == b'0' {
        (&t[1..n], 8)
    } else {
        (&t[..n], 10)
    };
    let v = integer(d, base)?;
    let ty = match (u, l > 0) {
        (true, false) => T::U32,
        (true, true) => T::U64,
        (false, true) => T::I64,
        // An unmarked decimal literal is the first of int, long, that holds it.
        (false, false) => T::I32,
    };
    Some(Rc::new(Int(v, Some(ty))))
}
fn integer(d: &[u8], base: u64) -> Option<u64> {
    let mut v: u64 = 0;
    for c in d {
        let k = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as u64;
        if k >= base {
            return None;
        }
        v = v.wrapping_mul(base).wrapping_add(k);
    }
    Some(v)
}
/// Digits and power of ten.
fn float(d: &[u8], ty: Option<T>) -> Option<V> {
    let mut m = vec![];
    let mut e: i32 = 0;
    let mut dot = false;
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        if c == b'.' {
            if dot {
                return None;
            }
            dot = true;
        } else if c == b'e' || c == b'E' {
            let neg = d.get(i + 1) == Some(&b'-');
            let s = if neg || d.get(i + 1) == Some(&b'+') { i + 2 } else { i + 1 };
            if s >= d.len() {
                return None;
            }
            let x = integer(&d[s..], 10)? as i32;
            e += if neg { -x } else { x };
            break;
        } else if c.is_ascii_digit() {
            m.push(c);
            if dot {
                e -= 1;
            }
        } else if c == b'_' {
        } else {
            return None;
        }
        i += 1;
    }
    Some(Flt(m, e, ty))
}
fn same_float(a: &[u8], ea: i32, b: &[u8], eb: i32) -> bool {
    // Both brought to the same exponent.
    let e = ea.min(eb);
    let grow = |m: &[u8], k: i32| {
        let mut v = m.to_vec();
        v.extend(core::iter::repeat(b'0').take(k as usize));
        v
    };
    let (mut x, mut y) = (grow(a, ea - e), grow(b, eb - e));
    while x.len() < y.len() {
        x.insert(0, b'0');
    }
    while y.len() < x.len() {
        y.insert(0, b'0');
    }
    eqb(&x, &y)
}
/// Is the C value the Rust value?
fn agree(r: &V, c: &V, single: bool) -> bool {
    let a = |x: &Rc<V>, y: &Rc<V>| agree(x, y, single);
    let all = |x: &[Rc<V>], y: &[Rc<V>]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| agree(p, q, single));
    match (r, c) {
        (Held(t, x), Held(u, y)) => same_type(*t, *u) && a(x, y),
        (Param(i), Param(j)) => i == j,
        (Int(v, t), Int(w, u)) => v == w && (t.is_none() && *u == Some(T::I32) || t == u),
        (Flt(m, e, t), Flt(n, f, u)) => same_float(m, *e, n, *f) && (t == u || t.is_none() && (*u == Some(T::F64) || single)),
        // A negative literal may be held as such by either side.
        (Un(b'-', x), Un(b'-', y)) => a(x, y),
        (Un(b'!', x), Un(b'!', y)) => is_bool(x) && a(x, y),
        (Un(b'!', x), Un(b'~', y)) => !is_bool(x) && a(x, y),
        (Bin(o, x, y), Bin(p, z, w)) => o == p && a(x, z) && a(y, w),
        (Cond(x, y, z), Cond(u, v, w)) => a(x, u) && a(y, v) && a(z, w),
        (Lib("mul_add", _, v), Bin(0, x, z)) => match (&**x, &**z) {
            (Bin(2, x, y), _) if a(&v[0], x) && a(&v[1], y) => a(&v[2], z),
            (_, Bin(2, y, w)) => a(&v[2], x) && a(&v[0], y) && a(&v[1], w),
            _ => false,
        },
        (Lib(m, _, v), Lib(n, s, w)) => m == n && (single || !s) && all(v, w),
        (Fun(k, v), Fun(l, w)) => k == l && all(v, w),
        (Cast(t, x), Cast(u, y)) => same_type(*t, *u) && a(x, y),
        (Bits(p, q, x), Bits(s, t, y)) => p == s && q == t && a(x, y),
        _ => false,
    }
}
fn same_type(r: T, c: T) -> bool {
    r == c || r == T::Bool && c == T::I32
}
/// Parameters 6 and up of every generated function are truth values.
fn is_bool(v: &V) -> bool {
    match v {
        Param(i) => *i >= 6,
        Bin(o, x, _) => *o >= 10 || matches!(o, 7 | 8 | 9) && is_bool(x),
        Un(b'!', x) | Cond(_, x, _) => is_bool(x),
        Held(t, _) => *t == T::Bool,
        Lib(m, ..) => m.starts_with("is_"),
        _ => false,
    }
}
fn decide(items: &[Item], o: Options, must: bool, label: &str) {
    let mut t = vec![];
    for i in items {
        iprint(i, &mut t);
    }
    let t = unsafe { String::from_utf8_unchecked(t) };
    note(&t);
    let single = !o.float_suffix.is_empty();
    let prefix = o.prefix.clone();
    let file: syn::File = match syn::parse_str(&t) {
        Ok(f) => f,
        Err(_) => panic!("the generated text does not parse"),
    };
    nopanic(Some("generated C: no panic"));
    let c = to_c(&file, o);
    nopanic(None);
    note(&c);
    let Some((cf, rf)) = read(&c).map(|c| (c, rust_side(items))) else {
        reach("rejected");
        check(!must, &format!("{}: the text is C", label));
        return;
    };
    reach("read as C");
    check(cf.len() == rf.len(), &format!("{}: the same functions", label));
    for (c, r) in cf.iter().zip(&rf) {
        let mut n = prefix.as_bytes().to_vec();
        n.extend_from_slice(&r.name);
        let sig = eqb(&n, &c.name) && r.params.len() == c.params.len() && r.params.iter().zip(&c.params).all(|(x, y)| same_type(*x, *y)) && same_type(r.ret, c.ret);
        check(sig, &format!("{}: the same signature", label));
        check(agree(&r.val, &c.val, single), &format!("{}: the C computes what the Rust computes", label));
    }
}
fn read(c: &str) -> Option<Vec<F>> {
    let t = lex(c.as_bytes())?;
    let mut cc = Cc { t, i: 0, env: vec![], funs: vec![], scope: vec![0] };
    cc.file()?;
    Some(cc.funs)
}

// ---- generation ----
fn b<X>(x: X) -> Box<X> {
    Box::new(x)
}
fn rid(s: &str) -> R {
    R::Id(s.as_bytes().to_vec())
}
fn bin(o: u8, l: R, r: R) -> R {
    R::Bin(o, b(l), b(r))
}
fn int_lit(t: &str) -> R {
    let t = t.as_bytes().to_vec();
    let n = t.iter().take_while(|c| c.is_ascii_digit()).count();
    let ty = match &t[n..] {
        b"" => None,
        b"i32" => Some(T::I32),
        b"i64" => Some(T::I64),
        b"u32" => Some(T::U32),
        b"u64" => Some(T::U64),
        _ => panic!(),
    };
    let v = integer(&t[..n], 10).unwrap();
    R::Num(t, Int(v, ty))
}
fn flt_lit(t: &[u8]) -> R {
    let (n, ty) = if t.ends_with(b"f32") {
        (t.len() - 3, Some(T::F32))
    } else if t.ends_with(b"f64") {
        (t.len() - 3, Some(T::F64))
    } else {
        (t.len(), None)
    };
    R::Num(t.to_vec(), float(&t[..n], ty).unwrap())
}
/// Three floats, three integers, three truth values.
const SIG: &[(&str, &str)] = &[("x", "fty"), ("y", "fty"), ("z", "fty"), ("m", "ity"), ("n", "ity"), ("k", "ity"), ("p", "bool"), ("q", "bool"), ("r", "bool")];
fn sig() -> Vec<(Vec<u8>, &'static str)> {
    SIG.iter().map(|(n, t)| (n.as_bytes().to_vec(), *t)).collect()
}
const TYPES: [&str; 3] = ["fty", "ity", "bool"];
fn header(bits: u64) -> Vec<Item> {
    if bits == 32 {
        vec![Item::Type("fty", "f32"), Item::Type("ity", "i32"), Item::Type("uty", "u32")]
    } else {
        vec![Item::Type("fty", "f64"), Item::Type("ity", "i64"), Item::Type("uty", "u64")]
    }
}
fn opts(bits: u64, prefix: &str) -> Options {
    Options { prefix: prefix.to_string(), float_suffix: if bits == 32 { "f".to_string() } else { String::new() } }
}
/// Makes typed expressions; leaves of a kind are its three parameters in turn.
struct Gen {
    next: [usize; 3],
    rich: bool,
    pars: bool,
}
impl Gen {
    fn new(rich: bool) -> Gen {
        Gen { next: [0; 3], rich, pars: true }
    }
    fn leaf(&mut self, k: usize) -> R {
        let i = self.next[k];
        self.next[k] = (i + 1) % 3;
        rid(SIG[3 * k + i].0)
    }
    fn two(&mut self, o: u8, lk: usize, rk: usize, n: u64) -> R {
        let l = choose(n, "left");
        let l_ = self.gen(lk, l);
        bin(o, l_, self.gen(rk, n - 1 - l))
    }
    fn cond(&mut self, k: usize, n: u64) -> R {
        let c = self.gen(2, n - 1);
        let (t, f) = (self.leaf(k), self.leaf(k));
        R::If(b(c), b(Blk(vec![], t)), b(Else::Blk(Blk(vec![], f))))
    }
    fn gen(&mut self, k: usize, n: u64) -> R {
        let r = self.gen1(k, n);
        if n > 0 && self.pars && choose(2, "par") == 1 {
            // at most one redundant parenthesis
            self.pars = false;
            return R::Par(b(r));
        }
        r
    }
    /// An expression of kind k (0 float, 1 integer, 2 truth value) with n operators.
    fn gen1(&mut self, k: usize, n: u64) -> R {
        if n == 0 {
            return self.leaf(k);
        }
        match k {
            0 => match choose(if self.rich { 7 } else { 5 }, "float op") {
                o @ 0..=3 => self.two(o as u8, 0, 0, n),
                4 => R::Neg(b(self.gen(0, n - 1))),
                5 => R::Cast(b(self.gen(1, n - 1)), "fty"),
                _ => self.cond(0, n),
            },
            1 => match choose(if self.rich { 13 } else { 11 }, "int op") {
                o @ 0..=9 => self.two(o as u8, 1, 1, n),
                10 => R::Neg(b(self.gen(1, n - 1))),
                11 => {
                    let from = 2 * choose(2, "from") as usize;
                    R::Cast(b(self.gen(from, n - 1)), "ity")
                }
                _ => self.cond(1, n),
            },
            _ => match choose(12, "bool op") {
                o @ 0..=5 => {
                    let of = choose(2, "of") as usize;
                    self.two(10 + o as u8, of, of, n)
                }
                6 => self.two(16, 2, 2, n),
                7 => self.two(17, 2, 2, n),
                8 => R::Not(b(self.gen(2, n - 1))),
                o => self.two([7, 8, 9][o as usize - 9], 2, 2, n),
            },
        }
    }
}
fn one(r: R, t: &'static str, bits: u64) -> Vec<Item> {
    let mut i = header(bits);
    i.push(Item::Fn(b"f".to_vec(), sig(), t, Blk(vec![], r)));
    i
}
fn b_bits() -> u64 {
    [32, 64][choose(2, "bits") as usize]
}
/// All expressions with one or two operators.
#[no_mangle]
pub extern "C" fn h_c12_two() {
    let n = 1 + choose(2, "operators");
    let k = choose(3, "kind") as usize;
    let r = Gen::new(true).gen(k, n);
    decide(&one(r, TYPES[k], 64), opts(64, ""), true, "operators");
}
/// Three operators.
#[no_mangle]
pub extern "C" fn h_c12_three() {
    let k = choose(3, "kind") as usize;
    let mut g = Gen::new(true);
    g.pars = false;
    let r = g.gen(k, 3);
    decide(&one(r, TYPES[k], 64), opts(64, ""), true, "operators");
}
fn blk(r: R) -> Blk {
    Blk(vec![], r)
}
/// Conditionals: chains, nesting in every place, around and inside operators, calls, casts and lets.
#[no_mangle]
pub extern "C" fn h_c12_if() {
    let mut g = Gen::new(false);
    g.pars = false;
    let place = choose(8, "place");
    let n = if matches!(place, 0 | 7) { choose(2, "condition") } else { 0 };
    let c = g.gen(2, n);
    let c2 = rid(["p", "q"][choose(2, "second") as usize]);
    let i = match choose(5, "shape") {
        0 => R::If(b(c), b(blk(rid("x"))), b(Else::Blk(blk(rid("y"))))),
        1 => R::If(b(c), b(blk(rid("x"))), b(Else::If(R::If(b(c2), b(blk(rid("y"))), b(Else::Blk(blk(rid("z")))))))),
        2 => R::If(b(c), b(blk(R::If(b(c2), b(blk(rid("x"))), b(Else::Blk(blk(rid("y"))))))), b(Else::Blk(blk(rid("z"))))),
        3 => R::If(b(c), b(blk(rid("x"))), b(Else::Blk(blk(R::If(b(c2), b(blk(rid("y"))), b(Else::Blk(blk(rid("z"))))))))),
        _ => {
            let l = |n: &str, r: R| St::Let(n.as_bytes().to_vec(), Some("fty"), r);
            R::If(b(c), b(Blk(vec![l("t", bin(2, rid("x"), rid("y")))], bin(0, rid("t"), rid("z")))), b(Else::Blk(Blk(vec![l("t", rid("z")), l("w", rid("t"))], bin(1, rid("w"), rid("t"))))))
        }
    };
    let o = if matches!(place, 1 | 2 | 6) { choose(4, "op") as u8 } else { 0 };
    let r = match place {
        0 => i,
        1 => bin(o, R::Par(b(i)), rid("z")),
        2 => bin(o, rid("z"), R::Par(b(i))),
        3 => R::Neg(b(R::Par(b(i)))),
        4 => R::Cast(b(R::Par(b(R::Cast(b(R::Par(b(i))), "ity")))), "fty"),
        5 => R::Meth(b(rid("z")), "mul_add", vec![i.clone(), i]),
        6 => {
            let r = Blk(vec![St::Let(b"t".to_vec(), Some("fty"), i)], bin(o, rid("t"), rid("x")));
            let mut it = header(64);
            it.push(Item::Fn(b"f".to_vec(), sig(), "fty", r));
            return decide(&it, opts(64, ""), true, "if");
        }
        _ => R::If(b(bin(12, R::Par(b(i)), rid("z"))), b(blk(rid("y"))), b(Else::Blk(blk(rid("z"))))),
    };
    decide(&one(r, "fty", 64), opts(64, ""), true, "if");
}
const METH: &[(&str, u64)] = &[
    ("mul_add", 2), ("abs", 0), ("sqrt", 0), ("round", 0), ("floor", 0), ("ceil", 0), ("trunc", 0), ("cbrt", 0), ("exp", 0), ("exp2", 0), ("log2", 0), ("log10", 0),
    ("sin", 0), ("cos", 0), ("tan", 0), ("asin", 0), ("acos", 0), ("atan", 0), ("sinh", 0), ("cosh", 0), ("tanh", 0), ("asinh", 0), ("acosh", 0), ("atanh", 0),
    ("atan2", 1), ("hypot", 1), ("copysign", 1), ("powf", 1),
];
/// Methods C has no function for under that name: anything but wrong C will do.
const METH2: &[(&str, u64)] = &[
    ("ln", 0), ("log", 1), ("exp_m1", 0), ("ln_1p", 0), ("recip", 0), ("signum", 0), ("fract", 0), ("max", 1), ("min", 1), ("to_degrees", 0), ("rem_euclid", 1), ("clamp", 2), ("is_nan", 0), ("is_sign_negative", 0),
];
/// Method calls, with an expression as receiver and as one of the arguments, both widths, with and without prefix.
#[no_mangle]
pub extern "C" fn h_c12_methods() {
    let bits = b_bits();
    let (m, k) = METH[choose(METH.len() as u64, "method") as usize];
    method(m, k, bits, true);
}
fn method(m: &'static str, k: u64, bits: u64, must: bool) {
    let mut g = Gen::new(true);
    g.pars = false;
    let deep = choose(1 + k, "deep");
    let mut v = vec![];
    for i in 0..=k {
        v.push(if i == deep { g.gen(0, 1) } else { g.leaf(0) });
    }
    let recv = v.remove(0);
    let mut r = R::Meth(b(recv), m, v);
    match choose(4, "around") {
        0 => {}
        1 => r = bin(3, rid("z"), r),
        2 => r = R::Neg(b(r)),
        _ => r = R::Meth(b(r), "mul_add", vec![rid("x"), rid("z")]),
    }
    decide(&one(r, "fty", bits), opts(bits, ["", "ds_"][choose(2, "prefix") as usize]), must, "methods");
}
#[no_mangle]
pub extern "C" fn h_c12_methods_other() {
    let bits = b_bits();
    let (m, k) = METH2[choose(METH2.len() as u64, "method") as usize];
    method(m, k, bits, false);
}
/// Bit patterns: from_bits, to_bits and arithmetic on them.
#[no_mangle]
pub extern "C" fn h_c12_bits() {
    let bits = b_bits();
    let arg = |g: &mut Gen| g.gen(0, 1);
    let mut g = Gen::new(true);
    g.pars = false;
    let u = ["u32", "u64"][(bits / 64) as usize];
    let f = ["f32", "f64"][(bits / 64) as usize];
    let tb = R::Meth(b(arg(&mut g)), "to_bits", vec![]);
    let from = |x: R| R::FromBits(["fty", f][choose(2, "spelling") as usize], b(x));
    let o = [0u8, 1, 5, 6, 7, 8, 9][choose(7, "op") as usize];
    let d = digit("d");
    let lit = {
        let mut t = vec![d];
        put(&mut t, u);
        R::Num(t, Int((d - b'0') as u64, Some(if bits == 32 { T::U32 } else { T::U64 })))
    };
    let (r, t) = match choose(6, "shape") {
        0 => (tb, "uty"),
        1 => (from(R::Cast(b(rid("m")), "uty")), "fty"),
        2 => (from(bin(o, tb, lit)), "fty"),
        3 => (bin(o, tb, lit), "uty"),
        4 => (R::Cast(b(bin(o, lit, R::Cast(b(rid("n")), "uty"))), "fty"), "fty"),
        _ => (R::Meth(b(from(bin(o, R::Meth(b(R::Meth(b(rid("x")), "abs", vec![])), "to_bits", vec![]), R::Cast(b(rid("n")), "uty")))), "copysign", vec![rid("y")]), "fty"),
    };
    decide(&one(r, t, bits), opts(bits, ""), true, "bits");
}
/// Literals of every written form, every digit symbolic.
#[no_mangle]
pub extern "C" fn h_c12_literals() {
    const FORMS: &[&str] = &[
        "d", "dd", "1_0d", "di32", "di64", "du32", "du64", "21474836d7u32", "184467440737095516d5u64", "92233720368547758d0i64", "0d", "0d.d5", "d.d", "d.", "0.0d", "dd.d_d", "d.df32", "d.df64", "df32", "df64", "de3", "d.de-5",
        "1dE+2", "1.d_e1_0f32", "0.d_f64", "ddf32", "0xdau32", "0x7f80000du32", "0x7ff0_0000_0000_000du64", "0b10u32", "0o1du32", "0o17", "0xff",
    ];
    let f = FORMS[choose(FORMS.len() as u64, "form") as usize];
    let octal = f.starts_with("0o");
    let mut t: Vec<u8> = vec![];
    for (i, c) in f.bytes().enumerate() {
        if c == b'd' && !(f.starts_with("0x") && i == 1) {
            t.push(if octal { u64_in(b'0' as u64, b'7' as u64, "d") as u8 } else { digit("d") });
        } else {
            t.push(c);
        }
    }
    // The value by the rules of Rust.
    let n = t.len();
    let (body, suffix): (&[u8], &[u8]) = if n > 3 && matches!(&t[n - 3..], b"i32" | b"i64" | b"u32" | b"u64") || (n > 3 && !f.starts_with("0x") && matches!(&t[n - 3..], b"f32" | b"f64")) {
        (&t[..n - 3], &t[n - 3..])
    } else {
        (&t[..], b"")
    };
    let ty = match suffix {
        b"i32" => Some(T::I32),
        b"i64" => Some(T::I64),
        b"u32" => Some(T::U32),
        b"u64" => Some(T::U64),
        b"f32" => Some(T::F32),
        b"f64" => Some(T::F64),
        _ => None,
    };
    let bare: Vec<u8> = body.iter().copied().filter(|c| *c != b'_').collect();
    let base = match &f.as_bytes()[..f.len().min(2)] {
        b"0x" => 16,
        b"0o" => 8,
        b"0b" => 2,
        _ => 10,
    };
    let v = if base != 10 {
        Int(integer(&bare[2..], base).unwrap(), ty)
    } else if matches!(ty, Some(T::F32 | T::F64)) || bare.iter().any(|c| matches!(c, b'.' | b'e' | b'E')) {
        float(&bare, ty).unwrap()
    } else {
        Int(integer(&bare, 10).unwrap(), ty)
    };
    let is_float = matches!(v, Flt(..));
    let l = R::Num(t, v);
    let x = rid(if is_float { "x" } else { "m" });
    let r = match choose(6, "place") {
        0 => l,
        1 => R::Neg(b(l)),
        2 => bin(1, x, R::Neg(b(l))),
        3 => bin(3, l, x),
        4 => R::Cast(b(l), "fty"),
        _ => R::Cast(b(R::Neg(b(l))), "ity"),
    };
    decide(&one(r, "fty", 64), opts([64, 32][choose(2, "suffix") as usize], ""), true, "literals");
}
/// Local variables: every name symbolic, so that each may shadow any other; typed and untyped, assignment.
#[no_mangle]
pub extern "C" fn h_c12_lets() {
    let bits = 64;
    let nm = || vec![letter(b'x', b'z', "name")];
    let ty = |i: u64| if i == 0 { None } else { Some("fty") };
    // Parameters x, y; z has to be declared by the first let to be used.
    let a = nm();
    let use1 = vec![letter(b'x', b'y', "use")];
    let mut st = vec![St::Let(a.clone(), ty(choose(2, "typed")), bin(2, R::Id(use1), rid("y")))];
    let r = match choose(6, "shape") {
        0 => bin(0, R::Id(a), rid("x")),
        1 => {
            // in an inner block
            let c = nm();
            let inner = Blk(vec![St::Let(c.clone(), ty(choose(2, "typed")), bin(1, R::Id(a.clone()), rid("x")))], bin(3, R::Id(c), R::Id(a.clone())));
            bin(0, R::Par(b(R::Block(b(inner)))), bin(2, R::Id(a), rid("x")))
        }
        2 => {
            st.push(St::Set(a.clone(), None, bin(1, R::Id(a.clone()), rid("y"))));
            bin(0, R::Id(a), rid("x"))
        }
        3 => {
            let o = choose(4, "op") as u8;
            st.push(St::Set(a.clone(), Some(o), bin(1, R::Id(a.clone()), rid("x"))));
            bin(0, R::Id(a), rid("x"))
        }
        4 => {
            // in a branch
            let c = nm();
            let t = Blk(vec![St::Let(c.clone(), ty(choose(2, "typed")), bin(0, R::Id(a.clone()), rid("y")))], R::Id(c));
            let i = R::If(b(bin(12, R::Id(a.clone()), rid("x"))), b(t), b(Else::Blk(blk(R::Neg(b(R::Id(a)))))));
            bin(2, R::Par(b(i)), rid("x"))
        }
        _ => {
            let c = nm();
            assume(!eqb(&c, &a));
            st.push(St::Let(c.clone(), ty(choose(2, "typed")), bin(1, R::Id(a.clone()), rid("x"))));
            R::Meth(b(R::Id(c)), "mul_add", vec![R::Id(a), rid("y")])
        }
    };
    let mut it = header(bits);
    // Assignments are not translated.
    let must = !st.iter().any(|s| matches!(s, St::Set(..)));
    it.push(Item::Fn(b"f".to_vec(), vec![(b"x".to_vec(), "fty"), (b"y".to_vec(), "fty")], "fty", Blk(st, r)));
    decide(&it, opts(bits, ""), must, "lets");
}
/// Whole files: constants, type names, several functions calling each other with arguments in order, prefixes.
#[no_mangle]
pub extern "C" fn h_c12_items() {
    let bits = b_bits();
    let mut it = header(bits);
    let k = digit("d");
    let t = [b'0', b'.', k];
    it.push(Item::Const(b"AA".to_vec(), ["fty", "f32", "f64", "ity"][choose(4, "const type") as usize], R::Neg(b(flt_lit(&t)))));
    let fl = |r: R| r;
    let ts = ["fty", "ity", "bool", "f32", "f64", "i32", "u32", "u64", "i64", "uty"];
    let (pt, rt) = if choose(2, "vary") == 0 { (ts[choose(10, "parameter type") as usize], "uty") } else { ("ity", ts[choose(10, "result type") as usize]) };
    let names: [&[u8]; 2] = [b"x", b"y"];
    let body = blk(R::Cast(b(rid("y")), rt));
    it.push(Item::Fn(b"g1".to_vec(), vec![(names[0].to_vec(), "fty"), (names[1].to_vec(), pt)], rt, body));
    it.push(Item::Fn(b"h".to_vec(), vec![], "fty", blk(fl(rid("AA")))));
    let arg = |s: &str| R::Id(vec![letter(b'x', b'z', s)]);
    let call = R::Call(b"g1".to_vec(), vec![arg("a"), R::Cast(b(arg("b")), pt)]);
    let r = match choose(4, "use") {
        0 => R::Cast(b(call), "fty"),
        1 => bin(0, R::Cast(b(call), "fty"), R::Call(b"h".to_vec(), vec![])),
        2 => bin(1, rid("AA"), R::Cast(b(R::Call(b"g1".to_vec(), vec![R::Call(b"h".to_vec(), vec![]), R::Cast(b(rid("AA")), pt)])), "fty")),
        _ => R::Meth(b(R::Call(b"h".to_vec(), vec![])), "copysign", vec![R::Cast(b(call), "fty")]),
    };
    it.push(Item::Fn(b"f".to_vec(), sig(), "fty", blk(r)));
    decide(&it, opts(bits, ["", "ds32_"][choose(2, "prefix") as usize]), true, "items");
}
/// `!` on integers.
#[no_mangle]
pub extern "C" fn h_c12_not() {
    let mut g = Gen::new(false);
    let r = R::Not(b(g.gen(1, 0)));
    decide(&one(r, "ity", 64), opts(64, ""), true, "integer complement");
}
/// What has no translation must not come out as C.
#[no_mangle]
pub extern "C" fn h_c12_reject() {
    const BODY: &[&str] = &[
        "if p { x } ; x", "if p { x = y; } x", "for i in 0..3 { x += y; } x", "while p { x += y; } x", "loop { x += y; }", "match m { 0 => x, _ => y }", "return x;", "let (t, w) = (x, y); t + w", "let t = [x, y]; t[0]",
        "[x, y] == [y, x]", "let t: [fty; 2] = [x, y]; x", "(x, y).0", "let g = |t: fty| t + x; g(y)", "let t = &x; *t + y", "x as u8 as fty", "x as usize as fty", "&x == &y", "let t = x..y; x", "x.y", "unsafe { x }",
        "y? + x", "println!(\"{}\", x); x", "f::<3>(x)", "fty::max(x, y)", "x.sum(y)", "f32::MAX + x", "core::f32::consts::PI * x", "m.pow(2) as fty + g(x)", "x.sin_cos().0", "{ let t = x; }", "x;", "let t = x;", "p as fty + (x, y)",
    ];
    let i = choose(BODY.len() as u64, "body") as usize;
    let v = letter(b'x', b'y', "v");
    let t = format!("type fty = f64; type ity = i64; fn f(x: fty, y: fty, m: ity, p: bool) -> fty {{ {} }}", BODY[i]);
    // One occurrence of a name is symbolic.
    let mut t = t.into_bytes();
    let at = (0..t.len()).rev().find(|k| (t[*k] == b'x' || t[*k] == b'y') && !(t[*k - 1] as char).is_alphanumeric() && t[*k - 1] != b'.' && !(t[*k + 1] as char).is_alphanumeric()).unwrap();
    t[at] = v;
    let t = unsafe { String::from_utf8_unchecked(t) };
    note(&t);
    let file: syn::File = match syn::parse_str(&t) {
        Ok(f) => f,
        Err(_) => panic!("the generated text does not parse"),
    };
    nopanic(Some("generated C: no panic"));
    let c = to_c(&file, opts(64, ""));
    nopanic(None);
    note(&c);
    reach("translated");
    let ok = match read(&c) {
        None => true,
        Some(f) => f.iter().any(|f| matches!(*f.val, Nothing | Undef)),
    };
    check(ok, "untranslatable: does not come out as C");
}
