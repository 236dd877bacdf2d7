//! LLVM IR text parser. Function bodies are parsed on first call.
use crate::ir::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str), // raw contents of a quoted string
    P(u8),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    pos: usize,
    cur: Tok<'a>,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a str) -> Self {
        let mut l = Lex { s: t.as_bytes(), t, pos: 0, cur: Tok::Eof };
        l.advance();
        l
    }
    pub fn peek(&self) -> Tok<'a> {
        self.cur
    }
    pub fn save(&self) -> (usize, Tok<'a>) {
        (self.pos, self.cur)
    }
    pub fn restore(&mut self, s: (usize, Tok<'a>)) {
        self.pos = s.0;
        self.cur = s.1;
    }
    pub fn next(&mut self) -> Tok<'a> {
        let c = self.cur;
        self.advance();
        c
    }
    fn advance(&mut self) {
        let s = self.s;
        while self.pos < s.len() && (s[self.pos] as char).is_ascii_whitespace() {
            self.pos += 1;
        }
        if self.pos >= s.len() {
            self.cur = Tok::Eof;
            return;
        }
        let c = s[self.pos];
        let st = self.pos;
        match c {
            b';' => {
                while self.pos < s.len() && s[self.pos] != b'\n' {
                    self.pos += 1;
                }
                self.advance();
            }
            b'/' if self.pos + 1 < s.len() && s[self.pos + 1] == b'*' => {
                while self.pos + 1 < s.len() && !(s[self.pos] == b'*' && s[self.pos + 1] == b'/') {
                    self.pos += 1;
                }
                self.pos += 2;
                self.advance();
            }
            b'%' | b'@' => {
                self.pos += 1;
                let name;
                if self.pos < s.len() && s[self.pos] == b'"' {
                    let b = self.pos + 1;
                    let mut e = b;
                    while s[e] != b'"' {
                        e += 1;
                    }
                    name = &self.t[b..e];
                    self.pos = e + 1;
                } else {
                    let b = self.pos;
                    while self.pos < s.len() && idch(s[self.pos]) {
                        self.pos += 1;
                    }
                    name = &self.t[b..self.pos];
                }
                self.cur = if c == b'%' { Tok::Local(name) } else { Tok::Global(name) };
            }
            b'"' => {
                let b = self.pos + 1;
                let mut e = b;
                while s[e] != b'"' {
                    e += 1;
                }
                self.pos = e + 1;
                self.cur = Tok::Str(&self.t[b..e]);
            }
            b'c' if self.pos + 1 < s.len() && s[self.pos + 1] == b'"' => {
                let b = self.pos + 2;
                let mut e = b;
                while s[e] != b'"' {
                    e += 1;
                }
                self.pos = e + 1;
                self.cur = Tok::Str(&self.t[b..e]);
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.pos += 1;
                while self.pos < s.len()
                    && (s[self.pos].is_ascii_alphanumeric()
                        || s[self.pos] == b'.'
                        || ((s[self.pos] == b'+' || s[self.pos] == b'-')
                            && (s[self.pos - 1] == b'e' || s[self.pos - 1] == b'E')))
                {
                    self.pos += 1;
                }
                self.cur = Tok::Num(&self.t[st..self.pos]);
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                while self.pos < s.len() && idch(s[self.pos]) {
                    self.pos += 1;
                }
                self.cur = Tok::Word(&self.t[st..self.pos]);
            }
            b'.' => {
                self.pos += 1;
                while self.pos < s.len() && s[self.pos] == b'.' {
                    self.pos += 1;
                }
                self.cur = Tok::Word("...");
            }
            _ => {
                self.pos += 1;
                self.cur = Tok::P(c);
            }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.cur == Tok::P(c) {
            self.advance();
            true
        } else {
            false
        }
    }
    pub fn word(&mut self, w: &str) -> bool {
        if self.cur == Tok::Word(w) {
            self.advance();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} in {}", c as char, self.cur, &self.t[..self.t.len().min(300)]))
        }
    }
    pub fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
}

pub type R<T> = Result<T, String>;

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub align: u64,
    pub init: Option<&'static str>, // text starting at the initializer's type
    pub thread_local: bool,
    pub addr: u64,
    pub constant: bool,
}

pub struct FnSrc {
    pub name: String,
    pub header: &'static str,
    pub body: &'static str,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct Module {
    pub fns: Vec<FnSrc>,
    pub fn_idx: HashMap<String, u32>,
    pub externs: RefCell<Vec<String>>,
    pub extern_idx: RefCell<HashMap<String, u32>>,
    pub globals: Vec<GlobalDef>,
    pub global_idx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub types: RefCell<HashMap<String, Ty>>,
    pub type_src: HashMap<String, &'static str>,
}

pub const FN_BASE: u64 = 0x1f00_0000_0000;
pub const EXT_BASE: u64 = 0x1f80_0000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000_0000;

impl Module {
    pub fn load(paths: &[String]) -> R<Module> {
        let mut m = Module {
            fns: vec![],
            fn_idx: HashMap::new(),
            externs: RefCell::new(vec![]),
            extern_idx: RefCell::new(HashMap::new()),
            globals: vec![],
            global_idx: HashMap::new(),
            aliases: HashMap::new(),
            types: RefCell::new(HashMap::new()),
            type_src: HashMap::new(),
        };
        for p in paths {
            let text = crate::mem::map_file(p).map_err(|e| format!("{}: {}", p, e))?;
            m.scan(text)?;
        }
        // layout globals
        let mut a = GLOBAL_BASE + 4096;
        for i in 0..m.globals.len() {
            let sz = m.globals[i].ty.size().max(1);
            let al = m.globals[i].align.max(1);
            a = (a + al - 1) / al * al;
            m.globals[i].addr = a;
            a += sz + 16;
        }
        Ok(m)
    }

    fn scan(&mut self, text: &'static str) -> R<()> {
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let e = memchr(b'\n', &b[pos..]).map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with("define ") {
                // body up to "\n}\n"
                let mut p = e + 1;
                let body_start = p;
                loop {
                    let e2 = memchr(b'\n', &b[p..]).map(|x| p + x).unwrap_or(b.len());
                    if &b[p..e2] == b"}" {
                        break;
                    }
                    p = e2 + 1;
                }
                let body = &text[body_start..p];
                let at = line.find('@').ok_or("define without name")?;
                let mut lx = Lex::new(&line[at..]);
                let name = match lx.next() {
                    Tok::Global(n) => n.to_string(),
                    t => return Err(format!("bad define {:?}", t)),
                };
                let id = self.fns.len() as u32;
                if !self.fn_idx.contains_key(&name) {
                    self.fn_idx.insert(name.clone(), id);
                    self.fns.push(FnSrc { name, header: line, body, parsed: RefCell::new(None) });
                }
                pos = p + 2;
                continue;
            }
            if line.starts_with('@') {
                self.scan_global(line)?;
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let Tok::Local(n) = lx.next() {
                    lx.eat(b'=');
                    lx.word("type");
                    let off = line.find(" type ").unwrap() + 6;
                    self.type_src.insert(n.to_string(), &line[off..]);
                }
            }
            pos = e + 1;
        }
        Ok(())
    }

    fn scan_global(&mut self, line: &'static str) -> R<()> {
        let mut lx = Lex::new(line);
        let name = match lx.next() {
            Tok::Global(n) => n.to_string(),
            _ => return Err("global".into()),
        };
        lx.expect(b'=')?;
        let mut tl = false;
        let mut ext = false;
        let constant;
        loop {
            match lx.peek() {
                Tok::Word("global") => {
                    constant = false;
                    lx.next();
                    break;
                }
                Tok::Word("constant") => {
                    constant = true;
                    lx.next();
                    break;
                }
                Tok::Word("alias") => {
                    // @a = ... alias ty, ptr @b
                    lx.next();
                    while !matches!(lx.peek(), Tok::Eof) {
                        if let Tok::Global(t) = lx.peek() {
                            self.aliases.insert(name, t.to_string());
                            return Ok(());
                        }
                        lx.next();
                    }
                    return Ok(());
                }
                Tok::Word("external") | Tok::Word("extern_weak") => {
                    ext = true;
                    lx.next();
                }
                Tok::Word("thread_local") => {
                    tl = true;
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Word("addrspace") => {
                    lx.next();
                    lx.skip_parens();
                }
                Tok::Word(_) => {
                    lx.next();
                }
                t => return Err(format!("global {}: {:?}", name, t)),
            }
        }
        // remaining text: type [init] , align N ...
        let ty = self.ty(&mut lx)?;
        let init = if ext { None } else { Some(&line[Self::lexpos(&lx, line)..]) };
        let align = match line.rfind(", align ") {
            Some(i) => line[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1),
            None => ty.align(),
        };
        if self.global_idx.contains_key(&name) {
            if ext {
                return Ok(());
            }
            let i = self.global_idx[&name];
            if self.globals[i].init.is_none() {
                self.globals[i] = GlobalDef { name, ty, align, init, thread_local: tl, addr: 0, constant };
            }
            return Ok(());
        }
        self.global_idx.insert(name.clone(), self.globals.len());
        self.globals.push(GlobalDef { name, ty, align, init, thread_local: tl, addr: 0, constant });
        Ok(())
    }

    fn lexpos(lx: &Lex, line: &str) -> usize {
        // position of the current token's start: recompute by scanning back from lx.pos
        let p = lx.pos;
        // The current token ends at p; find its start by re-lexing from increasing prefixes is overkill:
        // tokens record only end. Compute via length.
        let l = match lx.peek() {
            Tok::Local(s) | Tok::Global(s) => {
                if p > 0 && line.as_bytes()[p - 1] == b'"' {
                    s.len() + 3
                } else {
                    s.len() + 1
                }
            }
            Tok::Word(s) | Tok::Num(s) => s.len(),
            Tok::Str(s) => {
                let st = p - s.len() - 2;
                if st > 0 && line.as_bytes()[st - 1] == b'c' {
                    s.len() + 3
                } else {
                    s.len() + 2
                }
            }
            Tok::P(_) => 1,
            Tok::Eof => 0,
        };
        p - l
    }

    pub fn ty(&self, lx: &mut Lex) -> R<Ty> {
        let t = match lx.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if lx.word("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "x86_amx" | "opaque" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Opaque,
                _ if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => return Err(format!("type word {}", w)),
            },
            Tok::Local(n) => {
                if let Some(t) = self.types.borrow().get(n) {
                    t.clone()
                } else {
                    let src = *self.type_src.get(n).ok_or(format!("unknown type %{}", n))?;
                    let mut l2 = Lex::new(src);
                    let t = self.ty(&mut l2)?;
                    self.types.borrow_mut().insert(n.to_string(), t.clone());
                    t
                }
            }
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    t => return Err(format!("arr {:?}", t)),
                };
                if !lx.word("x") {
                    return Err("arr x".into());
                }
                let t = self.ty(lx)?;
                lx.expect(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                if !lx.eat(b'}') {
                    loop {
                        f.push(self.ty(lx)?);
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    lx.expect(b'}')?;
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let mut f = vec![];
                    if !lx.eat(b'}') {
                        loop {
                            f.push(self.ty(lx)?);
                            if !lx.eat(b',') {
                                break;
                            }
                        }
                        lx.expect(b'}')?;
                    }
                    lx.expect(b'>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match lx.next() {
                        Tok::Num(n) => n.parse::<u32>().map_err(|e| e.to_string())?,
                        t => return Err(format!("vec {:?}", t)),
                    };
                    if !lx.word("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty(lx)?;
                    lx.expect(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => return Err(format!("type {:?}", t)),
        };
        // function type suffix:  ty (args...)
        Ok(t)
    }

    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(i) = self.global_idx.get(name) {
            if self.globals[*i].init.is_some() {
                return self.globals[*i].addr;
            }
            if !self.fn_idx.contains_key(name) {
                return self.globals[*i].addr;
            }
        }
        if let Some(i) = self.fn_idx.get(name) {
            return FN_BASE + (*i as u64) * 16;
        }
        if let Some(a) = self.aliases.get(name) {
            return self.sym_addr(a);
        }
        EXT_BASE + (self.extern_id(name) as u64) * 16
    }

    pub fn extern_id(&self, name: &str) -> u32 {
        if let Some(i) = self.extern_idx.borrow().get(name) {
            return *i;
        }
        let mut e = self.externs.borrow_mut();
        let i = e.len() as u32;
        e.push(name.to_string());
        self.extern_idx.borrow_mut().insert(name.to_string(), i);
        i
    }

    /// Parse a constant of the given type (no local registers).
    pub fn constant(&self, lx: &mut Lex, ty: &Ty) -> R<Val> {
        match self.operand(lx, ty, &mut |n| Err(format!("local %{} in constant", n)))? {
            Op::C(v) => Ok(v),
            _ => Err("non-constant".into()),
        }
    }

    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(n) if *n > 64 => Val::W(0),
            Ty::Arr(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::I(0),
        }
    }

    pub fn poison(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::poison(t)).collect())),
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::poison(t)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::poison).collect())),
            _ => Val::P,
        }
    }

    pub fn operand(&self, lx: &mut Lex, ty: &Ty, loc: &mut dyn FnMut(&str) -> R<u32>) -> R<Op> {
        let c = |v| Ok(Op::C(v));
        match lx.peek() {
            Tok::Local(n) => {
                lx.next();
                Ok(Op::R(loc(n)?))
            }
            Tok::Global(n) => {
                lx.next();
                c(Val::I(self.sym_addr(n)))
            }
            Tok::Num(n) => {
                lx.next();
                match ty {
                    Ty::F32 | Ty::F64 => c(Val::I(parse_fp(n, matches!(ty, Ty::F32))?)),
                    Ty::Int(w) => {
                        if *w > 64 {
                            let v: i128 = n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).map_err(|e| e.to_string())?;
                            let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                            c(Val::W((v as u128) & m))
                        } else {
                            let v: i128 = n.parse::<i128>().map_err(|e| format!("{} {}", n, e))?;
                            c(Val::I((v as u64) & mask(*w)))
                        }
                    }
                    _ => Err(format!("num for {:?}", ty)),
                }
            }
            Tok::Str(s) => {
                lx.next();
                c(Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::I(b as u64)).collect())))
            }
            Tok::Word(w) => {
                lx.next();
                match w {
                    "true" => c(Val::I(1)),
                    "false" => c(Val::I(0)),
                    "null" => c(Val::I(0)),
                    "none" => c(Val::I(0)),
                    "undef" | "poison" => c(Self::poison(ty)),
                    "zeroinitializer" => c(Self::zero(ty)),
                    "splat" => {
                        lx.expect(b'(')?;
                        let et = self.ty(lx)?;
                        let v = self.constant(lx, &et)?;
                        lx.expect(b')')?;
                        match ty {
                            Ty::Vec(n, _) => c(Val::A(Rc::new(vec![v; *n as usize]))),
                            _ => Err("splat".into()),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "trunc" | "zext" => {
                        lx.expect(b'(')?;
                        let t = self.ty(lx)?;
                        let v = self.constant(lx, &t)?;
                        lx.word("to");
                        let t2 = self.ty(lx)?;
                        lx.expect(b')')?;
                        let v = match v {
                            Val::I(x) => Val::I(x & mask(t2.bits().min(64) as u32)),
                            o => o,
                        };
                        c(v)
                    }
                    "getelementptr" => {
                        while let Tok::Word(x) = lx.peek() {
                            lx.next();
                            if x == "inrange" {
                                lx.skip_parens();
                            }
                        }
                        lx.expect(b'(')?;
                        let t = self.ty(lx)?;
                        lx.expect(b',')?;
                        self.ty(lx)?;
                        let base = match self.constant(lx, &Ty::Ptr)? {
                            Val::I(x) => x,
                            _ => return Err("gep base".into()),
                        };
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while lx.eat(b',') {
                            let it = self.ty(lx)?;
                            let iv = match self.constant(lx, &it)? {
                                Val::I(x) => sext(x, it.bits() as u32),
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off += iv * t.size() as i64;
                                first = false;
                            } else {
                                off += match &cur {
                                    Ty::Struct(..) => cur.field_off(iv as usize) as i64,
                                    _ => cur.field_off(1) as i64 * iv,
                                };
                                cur = match &cur {
                                    Ty::Struct(..) => cur.field_ty(iv as usize),
                                    _ => cur.field_ty(0),
                                };
                            }
                        }
                        lx.expect(b')')?;
                        c(Val::I(base.wrapping_add(off as u64)))
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        while let Tok::Word(_) = lx.peek() {
                            lx.next();
                        }
                        lx.expect(b'(')?;
                        let t = self.ty(lx)?;
                        let a = self.constant(lx, &t)?;
                        lx.expect(b',')?;
                        self.ty(lx)?;
                        let b = self.constant(lx, &t)?;
                        lx.expect(b')')?;
                        match (a, b) {
                            (Val::I(a), Val::I(b)) => {
                                let r = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "xor" => a ^ b,
                                    "and" => a & b,
                                    "or" => a | b,
                                    "mul" => a.wrapping_mul(b),
                                    _ => a.wrapping_shl(b as u32),
                                };
                                c(Val::I(r & mask(t.bits() as u32)))
                            }
                            _ => Err("constexpr arith".into()),
                        }
                    }
                    _ if w.starts_with("f0x") => c(Val::I(parse_fp(w, matches!(ty, Ty::F32))?)),
                    _ => Err(format!("operand word {}", w)),
                }
            }
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if lx.peek() == Tok::P(b'[') { b']' } else { b'}' };
                lx.next();
                let mut v = vec![];
                if !lx.eat(close) {
                    loop {
                        let t = self.ty(lx)?;
                        v.push(self.constant(lx, &t)?);
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    lx.expect(close)?;
                }
                c(Val::A(Rc::new(v)))
            }
            Tok::P(b'<') => {
                lx.next();
                let packed = lx.eat(b'{');
                let mut v = vec![];
                loop {
                    if packed && lx.peek() == Tok::P(b'}') {
                        break;
                    }
                    let t = self.ty(lx)?;
                    v.push(self.constant(lx, &t)?);
                    if !lx.eat(b',') {
                        break;
                    }
                }
                if packed {
                    lx.expect(b'}')?;
                }
                lx.expect(b'>')?;
                c(Val::A(Rc::new(v)))
            }
            t => Err(format!("operand {:?}", t)),
        }
    }

    /// Skip parameter / return attributes.
    fn attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    // stop at types and values
                    if is_type_word(w) || is_value_word(w) {
                        return;
                    }
                    lx.next();
                    if w == "align" || w == "addrspace" || w == "alignstack" {
                        if let Tok::Num(_) = lx.peek() {
                            lx.next();
                            continue;
                        }
                    }
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                Tok::P(b'#') => {
                    lx.next();
                    lx.next();
                }
                _ => return,
            }
        }
    }

    pub fn func(&self, idx: u32) -> R<Rc<Func>> {
        let src = &self.fns[idx as usize];
        if let Some(f) = &*src.parsed.borrow() {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(idx).map_err(|e| format!("{}: {}", src.name, e))?);
        *src.parsed.borrow_mut() = Some(f.clone());
        Ok(f)
    }

    fn parse_func(&self, idx: u32) -> R<Func> {
        let src = &self.fns[idx as usize];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header: define [linkage..] retattrs ty @name(params) ...
        let mut lx = Lex::new(&src.header[7..]);
        loop {
            match lx.peek() {
                Tok::Word(w) if is_type_word(w) => break,
                Tok::Word(w) => {
                    lx.next();
                    if w == "align" {
                        lx.next();
                    } else if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => break,
                t => return Err(format!("header {:?}", t)),
            }
        }
        let ret = self.ty(&mut lx)?;
        match lx.next() {
            Tok::Global(_) => {}
            t => return Err(format!("header name {:?}", t)),
        }
        lx.expect(b'(')?;
        let mut nargs = 0u32;
        let mut autonum = 0u32;
        if !lx.eat(b')') {
            loop {
                if lx.word("...") {
                    break;
                }
                self.ty(&mut lx)?;
                self.attrs(&mut lx);
                match lx.peek() {
                    Tok::Local(n) => {
                        lx.next();
                        if n.chars().all(|c| c.is_ascii_digit()) {
                            autonum = n.parse::<u32>().unwrap() + 1;
                        }
                        regs.insert(n.to_string(), nargs);
                    }
                    _ => {
                        regs.insert(autonum.to_string(), nargs);
                        autonum += 1;
                    }
                }
                nargs += 1;
                if !lx.eat(b',') {
                    break;
                }
            }
        }
        // split body into logical instruction lines
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut lines: Vec<(u32, String)> = vec![];
        let mut cur: i64 = -1;
        let mut it = src.body.lines().peekable();
        while let Some(l) = it.next() {
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            let b = l.as_bytes();
            if b[0] != b' ' && b[0] != b'\t' {
                // label
                let name = if b[0] == b'"' {
                    l[1..].split('"').next().unwrap().to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                cur += 1;
                labels.insert(name, cur as u32);
                continue;
            }
            let t = l.trim_start();
            if t.starts_with('#') || t.starts_with(';') {
                continue;
            }
            if cur < 0 {
                cur = 0;
                labels.insert(autonum.to_string(), 0);
            }
            if l.starts_with("          ") && (t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter")) {
                continue;
            }
            let mut s = t.to_string();
            if t.starts_with("switch ") && !t.contains(']') {
                while let Some(x) = it.next() {
                    s.push(' ');
                    s.push_str(x.trim());
                    if x.trim().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                if !t.contains(" unwind label ") {
                    if let Some(x) = it.next() {
                        s.push(' ');
                        s.push_str(x.trim());
                    }
                }
            }
            lines.push((cur as u32, s));
        }
        let nblocks = (cur + 1).max(1) as usize;
        let mut blocks: Vec<Block> = (0..nblocks).map(|_| Block { phis: vec![], ins: vec![] }).collect();
        let mut nregs = nargs;
        for (blk, s) in &lines {
            let mut lx = Lex::new(s);
            let mut dst: Option<u32> = None;
            if let Tok::Local(n) = lx.peek() {
                lx.next();
                lx.expect(b'=')?;
                let r = *regs.entry(n.to_string()).or_insert_with(|| {
                    nregs += 1;
                    nregs - 1
                });
                dst = Some(r);
            }
            let mut loc = |n: &str| -> R<u32> {
                Ok(*regs.entry(n.to_string()).or_insert_with(|| {
                    nregs += 1;
                    nregs - 1
                }))
            };
            let saved = s.as_str();
            match self.instr(&mut lx, dst, &mut loc, &labels) {
                Ok(Parsed::Ins(i)) => blocks[*blk as usize].ins.push(i),
                Ok(Parsed::Phi(inc)) => blocks[*blk as usize].phis.push((dst.unwrap(), inc)),
                Err(e) => blocks[*blk as usize].ins.push(Ins::Unsupported(format!("{} :: {}", e, saved))),
            }
        }
        Ok(Func { id: idx, name: src.name.clone(), nargs, ret, nregs, blocks })
    }

    fn label(&self, lx: &mut Lex, labels: &HashMap<String, u32>) -> R<u32> {
        lx.word("label");
        match lx.next() {
            Tok::Local(n) => labels.get(n).copied().ok_or(format!("label {}", n)),
            t => Err(format!("label tok {:?}", t)),
        }
    }

    fn st(&self, ty: &Ty) -> R<St> {
        Ok(match ty {
            Ty::Int(w) => St { w: *w, fp: false, n: 0 },
            Ty::Ptr => St { w: 64, fp: false, n: 0 },
            Ty::F32 => St { w: 32, fp: true, n: 0 },
            Ty::F64 => St { w: 64, fp: true, n: 0 },
            Ty::Vec(n, t) => {
                let s = self.st(t)?;
                St { n: *n, ..s }
            }
            _ => return Err(format!("scalar type expected {:?}", ty)),
        })
    }

    fn instr(&self, lx: &mut Lex, dst: Option<u32>, loc: &mut dyn FnMut(&str) -> R<u32>, labels: &HashMap<String, u32>) -> R<Parsed> {
        let w = match lx.next() {
            Tok::Word(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |op: Bin| op;
        let bop = match w {
            "add" => Some(bin(Bin::Add)),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        let skipflags = |lx: &mut Lex| {
            while let Tok::Word(f) = lx.peek() {
                match f {
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "tail"
                    | "musttail" | "notail" => {
                        lx.next();
                    }
                    _ => break,
                }
            }
        };
        if let Some(op) = bop {
            skipflags(lx);
            let t = self.ty(lx)?;
            let a = self.operand(lx, &t, loc)?;
            lx.expect(b',')?;
            let b = self.operand(lx, &t, loc)?;
            return Ok(Parsed::Ins(Ins::Bin { op, st: self.st(&t)?, dst: d, a, b }));
        }
        let ins = match w {
            "fneg" => {
                skipflags(lx);
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                Ins::FNeg { st: self.st(&t)?, dst: d, a }
            }
            "icmp" => {
                skipflags(lx);
                let p = match lx.next() {
                    Tok::Word(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("icmp {}", p)),
                    },
                    t => return Err(format!("icmp {:?}", t)),
                };
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let b = self.operand(lx, &t, loc)?;
                Ins::Icmp { p, st: self.st(&t)?, dst: d, a, b }
            }
            "fcmp" => {
                skipflags(lx);
                let p = match lx.next() {
                    Tok::Word(p) => match p {
                        "false" => FPred::False,
                        "oeq" => FPred::Oeq,
                        "ogt" => FPred::Ogt,
                        "oge" => FPred::Oge,
                        "olt" => FPred::Olt,
                        "ole" => FPred::Ole,
                        "one" => FPred::One,
                        "ord" => FPred::Ord,
                        "ueq" => FPred::Ueq,
                        "ugt" => FPred::Ugt,
                        "uge" => FPred::Uge,
                        "ult" => FPred::Ult,
                        "ule" => FPred::Ule,
                        "une" => FPred::Une,
                        "uno" => FPred::Uno,
                        "true" => FPred::True,
                        _ => return Err(format!("fcmp {}", p)),
                    },
                    t => return Err(format!("fcmp {:?}", t)),
                };
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let b = self.operand(lx, &t, loc)?;
                Ins::Fcmp { p, st: self.st(&t)?, dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint"
            | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                skipflags(lx);
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                if !lx.word("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty(lx)?;
                let from = self.st(&t)?;
                let to = self.st(&t2)?;
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "bitcast" if from.n != to.n => Cast::BitcastVec,
                    _ => {
                        if from.w == to.w {
                            Cast::Same
                        } else if from.w > to.w {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                Ins::Cast { c, from, to, dst: d, a }
            }
            "freeze" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                Ins::Freeze { dst: d, a }
            }
            "select" => {
                skipflags(lx);
                let ct = self.ty(lx)?;
                let c = self.operand(lx, &ct, loc)?;
                lx.expect(b',')?;
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let t2 = self.ty(lx)?;
                let b = self.operand(lx, &t2, loc)?;
                Ins::Select { st: self.st(&t).ok(), cond_vec: matches!(ct, Ty::Vec(..)), dst: d, c, a, b }
            }
            "getelementptr" => {
                skipflags(lx);
                if lx.word("inrange") {
                    lx.skip_parens();
                }
                let t = self.ty(lx)?;
                lx.expect(b',')?;
                let bt = self.ty(lx)?;
                let base = self.operand(lx, &bt, loc)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while lx.eat(b',') {
                    if lx.peek() == Tok::P(b'!') {
                        break;
                    }
                    let it = self.ty(lx)?;
                    let iv = self.operand(lx, &it, loc)?;
                    let iw = it.bits() as u32;
                    let scale;
                    if first {
                        scale = t.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Op::C(Val::I(k)) => *k as usize,
                                    _ => return Err("gep struct idx".into()),
                                };
                                off += cur.field_off(k) as i64;
                                cur = cur.field_ty(k);
                                continue;
                            }
                            _ => {
                                scale = cur.field_ty(0).size();
                                cur = cur.field_ty(0);
                            }
                        }
                    }
                    match &iv {
                        Op::C(Val::I(k)) => off += sext(*k, iw) * scale as i64,
                        _ => idx.push((iv, iw, scale)),
                    }
                }
                Ins::Gep { dst: d, base, off, idx, vec: matches!(bt, Ty::Vec(..)) }
            }
            "load" => {
                skipflags(lx);
                let t = self.ty(lx)?;
                lx.expect(b',')?;
                let pt = self.ty(lx)?;
                let ptr = self.operand(lx, &pt, loc)?;
                Ins::Load { dst: d, ty: t, ptr }
            }
            "store" => {
                skipflags(lx);
                let t = self.ty(lx)?;
                let val = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let pt = self.ty(lx)?;
                let ptr = self.operand(lx, &pt, loc)?;
                Ins::Store { ty: t, val, ptr }
            }
            "alloca" => {
                lx.word("inalloca");
                let t = self.ty(lx)?;
                let mut count = None;
                let mut align = t.align();
                while lx.eat(b',') {
                    if lx.word("align") {
                        if let Tok::Num(n) = lx.next() {
                            align = n.parse().unwrap();
                        }
                    } else if let Tok::Word(_) = lx.peek() {
                        let it = self.ty(lx)?;
                        let o = self.operand(lx, &it, loc)?;
                        count = Some((o, it.bits() as u32));
                    } else {
                        break;
                    }
                }
                Ins::Alloca { dst: d, size: t.size(), align, count }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if w != "call" && w != "invoke" && !lx.word("call") {
                    return Err("call".into());
                }
                skipflags(lx);
                // calling conv and return attributes
                loop {
                    match lx.peek() {
                        Tok::Word(x) if is_type_word(x) => break,
                        Tok::Word(x) => {
                            lx.next();
                            if x == "align" {
                                lx.next();
                            } else if lx.peek() == Tok::P(b'(') {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.ty(lx)?;
                // optional function type for varargs
                if lx.peek() == Tok::P(b'(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    Tok::Global(n) => {
                        let n2 = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                        if let Some(i) = self.fn_idx.get(n2) {
                            Callee::Direct(*i)
                        } else {
                            Callee::Named(self.extern_id(n2))
                        }
                    }
                    Tok::Local(n) => Callee::Indirect(Op::R(loc(n)?)),
                    Tok::Word("asm") => {
                        loop {
                            match lx.peek() {
                                Tok::P(b'(') | Tok::Eof => break,
                                _ => {
                                    lx.next();
                                }
                            }
                        }
                        Callee::Asm
                    }
                    Tok::Word("inttoptr") => {
                        lx.skip_parens();
                        Callee::Asm
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                lx.expect(b'(')?;
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.ty(lx)?;
                        if t == Ty::Meta {
                            // skip metadata operand
                            let mut dpt = 0;
                            loop {
                                match lx.peek() {
                                    Tok::P(b'(') | Tok::P(b'{') => dpt += 1,
                                    Tok::P(b')') if dpt == 0 => break,
                                    Tok::P(b')') | Tok::P(b'}') => dpt -= 1,
                                    Tok::P(b',') if dpt == 0 => break,
                                    Tok::Eof => break,
                                    _ => {}
                                }
                                lx.next();
                            }
                            args.push((Ty::Meta, Op::C(Val::P)));
                        } else {
                            self.attrs(lx);
                            let v = self.operand(lx, &t, loc)?;
                            args.push((t, v));
                        }
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    lx.expect(b')')?;
                }
                let mut normal = None;
                if w == "invoke" {
                    loop {
                        match lx.next() {
                            Tok::Word("to") => {
                                normal = Some(self.label(lx, labels)?);
                                break;
                            }
                            Tok::Eof => return Err("invoke to".into()),
                            _ => {}
                        }
                    }
                }
                if let Callee::Named(i) = &callee {
                    let n = self.externs.borrow()[*i as usize].clone();
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" {
                        return Ok(Parsed::Ins(Ins::Nop));
                    }
                }
                Ins::Call { dst: if ret == Ty::Void { None } else { dst }, callee, args, ret, normal }
            }
            "br" => {
                if let Tok::Word("label") = lx.peek() {
                    Ins::Br { to: self.label(lx, labels)? }
                } else {
                    let t = self.ty(lx)?;
                    let c = self.operand(lx, &t, loc)?;
                    lx.expect(b',')?;
                    let tl = self.label(lx, labels)?;
                    lx.expect(b',')?;
                    let fl = self.label(lx, labels)?;
                    Ins::CondBr { c, t: tl, f: fl }
                }
            }
            "switch" => {
                let t = self.ty(lx)?;
                let v = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let def = self.label(lx, labels)?;
                lx.expect(b'[')?;
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = self.ty(lx)?;
                    let cv = match self.constant(lx, &ct)? {
                        Val::I(x) => x,
                        Val::W(x) => x as u64,
                        _ => return Err("switch const".into()),
                    };
                    lx.expect(b',')?;
                    cases.push((cv, self.label(lx, labels)?));
                }
                Ins::Switch { w: t.bits() as u32, v, def, cases }
            }
            "ret" => {
                let t = self.ty(lx)?;
                if t == Ty::Void {
                    Ins::Ret { v: None }
                } else {
                    Ins::Ret { v: Some(self.operand(lx, &t, loc)?) }
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unsupported("resume".into()),
            "landingpad" => Ins::Unsupported("landingpad".into()),
            "phi" => {
                skipflags(lx);
                let t = self.ty(lx)?;
                let mut inc = vec![];
                while lx.eat(b'[') {
                    let v = self.operand(lx, &t, loc)?;
                    lx.expect(b',')?;
                    let b = self.label(lx, labels)?;
                    lx.expect(b']')?;
                    inc.push((b, v));
                    if !lx.eat(b',') {
                        break;
                    }
                }
                return Ok(Parsed::Phi(inc));
            }
            "extractvalue" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Ins::ExtractValue { dst: d, a, idx, ty: t }
            }
            "insertvalue" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let vt = self.ty(lx)?;
                let v = self.operand(lx, &vt, loc)?;
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Ins::InsertValue { dst: d, a, v, idx, ty: t }
            }
            "extractelement" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let it = self.ty(lx)?;
                let i = self.operand(lx, &it, loc)?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                Ins::ExtractElem { dst: d, a, i, n }
            }
            "insertelement" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let vt = self.ty(lx)?;
                let v = self.operand(lx, &vt, loc)?;
                lx.expect(b',')?;
                let it = self.ty(lx)?;
                let i = self.operand(lx, &it, loc)?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                Ins::InsertElem { dst: d, a, v, i, n }
            }
            "shufflevector" => {
                let t = self.ty(lx)?;
                let a = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let t2 = self.ty(lx)?;
                let b = self.operand(lx, &t2, loc)?;
                lx.expect(b',')?;
                let mt = self.ty(lx)?;
                let m = self.constant(lx, &mt)?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mask = match m {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle { dst: d, a, b, mask, n }
            }
            "atomicrmw" => {
                skipflags(lx);
                let op = match lx.next() {
                    Tok::Word(o) => match o {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        _ => return Err(format!("atomicrmw {}", o)),
                    },
                    t => return Err(format!("atomicrmw {:?}", t)),
                };
                let pt = self.ty(lx)?;
                let ptr = self.operand(lx, &pt, loc)?;
                lx.expect(b',')?;
                let t = self.ty(lx)?;
                let val = self.operand(lx, &t, loc)?;
                Ins::AtomicRmw { op, w: t.bits() as u32, dst: d, ptr, val }
            }
            "cmpxchg" => {
                skipflags(lx);
                let pt = self.ty(lx)?;
                let ptr = self.operand(lx, &pt, loc)?;
                lx.expect(b',')?;
                let t = self.ty(lx)?;
                let cmp = self.operand(lx, &t, loc)?;
                lx.expect(b',')?;
                let t2 = self.ty(lx)?;
                let new = self.operand(lx, &t2, loc)?;
                Ins::CmpXchg { w: t.bits() as u32, dst: d, ptr, cmp, new }
            }
            "fence" => Ins::Nop,
            _ => return Err(format!("unknown opcode {}", w)),
        };
        Ok(Parsed::Ins(ins))
    }
}

enum Parsed {
    Ins(Ins),
    Phi(Vec<(u32, Op)>),
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "float" | "double" | "ptr" | "label" | "metadata" | "half" | "x86_fp80" | "token" | "fp128")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    w.starts_with("f0x") ||
    matches!(
        w,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "inttoptr" | "ptrtoint" | "bitcast"
            | "getelementptr" | "add" | "sub" | "xor" | "trunc" | "ptrtoaddr"
    )
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        let s = 64 - w;
        ((x << s) as i64) >> s
    }
}

pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

/// Parse an LLVM floating constant. `float` constants are printed as doubles in hex, or in decimal when exact.
fn parse_fp(s: &str, f32_: bool) -> R<u64> {
    if let Some(h) = s.strip_prefix("0x") {
        if h.starts_with(|c: char| matches!(c, 'K' | 'L' | 'M' | 'H' | 'R')) {
            return Err(format!("fp const {}", s));
        }
        let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        return Ok(if f32_ { f64_bits_to_f32_bits(b) as u64 } else { b });
    }
    if let Some(h) = s.strip_prefix("f0x") {
        let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        return Ok(b);
    }
    match s.trim_start_matches('+') {
        "inf" => return Ok(if f32_ { f32::INFINITY.to_bits() as u64 } else { f64::INFINITY.to_bits() }),
        "qnan" => return Ok(if f32_ { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 }),
        "-qnan" => return Ok(if f32_ { 0xffc0_0000 } else { 0xfff8_0000_0000_0000 }),
        "-inf" => return Ok(if f32_ { f32::NEG_INFINITY.to_bits() as u64 } else { f64::NEG_INFINITY.to_bits() }),
        _ => {}
    }
    let d: f64 = s.parse().map_err(|_| format!("fp const {}", s))?;
    Ok(if f32_ { (d as f32).to_bits() as u64 } else { d.to_bits() })
}

fn f64_bits_to_f32_bits(b: u64) -> u32 {
    let d = f64::from_bits(b);
    if d.is_nan() {
        let sign = (b >> 63) as u32;
        let mant = ((b >> 29) & 0x7f_ffff) as u32;
        (sign << 31) | 0x7f80_0000 | if mant == 0 { 0x40_0000 } else { mant }
    } else {
        (d as f32).to_bits()
    }
}
