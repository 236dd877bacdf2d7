//! Shared pieces: a small expression language of the harness's own, its printer, comparisons with syn
//! trees and the meaning of syn trees as terms over the reals.
use quote::ToTokens;
use symrt::*;
use syn::{BinOp, Expr, Lit, UnOp};

/// An expression as the harness generated it.
#[derive(Clone, Debug)]
pub enum A {
    /// Identifier or path, as text (bytes may be symbolic).
    Id(Vec<u8>),
    /// Literal text.
    Num(Vec<u8>),
    Neg(Box<A>),
    Not(Box<A>),
    Bin(u8, Box<A>, Box<A>),
    Par(Box<A>),
    Meth(Box<A>, &'static str, Vec<A>),
    Call(&'static str, Vec<A>),
    Field(Box<A>, &'static str),
    Cast(Box<A>, &'static str),
}

pub const OPS: &[&str] = &["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "==", "!=", "<", "<=", ">", ">=", "&&", "||"];
/// Binding strength in Rust, higher binds tighter.
pub fn prec(op: u8) -> u8 {
    match op {
        2 | 3 | 4 => 10,
        0 | 1 => 9,
        5 | 6 => 8,
        7 => 7,
        8 => 6,
        9 => 5,
        10..=15 => 4,
        16 => 3,
        _ => 2,
    }
}
pub fn aprec(a: &A) -> u8 {
    match a {
        A::Bin(op, ..) => prec(*op),
        A::Cast(..) => 11,
        A::Neg(..) | A::Not(..) => 12,
        _ => 20,
    }
}
pub fn id(s: &str) -> A {
    A::Id(s.as_bytes().to_vec())
}
pub fn par(a: A) -> A {
    A::Par(Box::new(a))
}
/// Inserts the parentheses Rust's grammar needs, so that the printed text parses to this very tree.
pub fn fix(a: A) -> A {
    let low = |x: A, p: u8| -> A {
        let x = fix(x);
        if aprec(&x) < p {
            par(x)
        } else {
            x
        }
    };
    match a {
        A::Neg(x) => A::Neg(Box::new(low(*x, 12))),
        A::Not(x) => A::Not(Box::new(low(*x, 12))),
        A::Bin(op, l, r) => {
            let p = prec(op);
            // Comparisons do not associate.
            let lp = if p == 4 { 5 } else { p };
            let mut l = low(*l, lp);
            // A cast followed by `<` would start generic arguments.
            if matches!(op, 5 | 12 | 13) && matches!(l, A::Cast(..)) {
                l = par(l);
            }
            A::Bin(op, Box::new(l), Box::new(low(*r, p + 1)))
        }
        A::Par(x) => par(fix(*x)),
        A::Meth(r, n, v) => A::Meth(Box::new(low(*r, 20)), n, v.into_iter().map(fix).collect()),
        A::Call(n, v) => A::Call(n, v.into_iter().map(fix).collect()),
        A::Field(r, n) => A::Field(Box::new(low(*r, 20)), n),
        A::Cast(x, t) => A::Cast(Box::new(low(*x, 11)), t),
        x => x,
    }
}
pub fn print(a: &A, o: &mut Vec<u8>) {
    let s = |o: &mut Vec<u8>, t: &str| o.extend_from_slice(t.as_bytes());
    match a {
        A::Id(t) | A::Num(t) => o.extend_from_slice(t),
        A::Neg(x) => {
            s(o, "-");
            print(x, o);
        }
        A::Not(x) => {
            s(o, "!");
            print(x, o);
        }
        A::Bin(op, l, r) => {
            print(l, o);
            s(o, " ");
            s(o, OPS[*op as usize]);
            s(o, " ");
            print(r, o);
        }
        A::Par(x) => {
            s(o, "(");
            print(x, o);
            s(o, ")");
        }
        A::Meth(r, n, v) => {
            print(r, o);
            s(o, ".");
            s(o, n);
            s(o, "(");
            args(v, o);
            s(o, ")");
        }
        A::Call(n, v) => {
            s(o, n);
            s(o, "(");
            args(v, o);
            s(o, ")");
        }
        A::Field(r, n) => {
            print(r, o);
            s(o, ".");
            s(o, n);
        }
        A::Cast(x, t) => {
            print(x, o);
            s(o, " as ");
            s(o, t);
        }
    }
}
fn args(v: &[A], o: &mut Vec<u8>) {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.extend_from_slice(b", ");
        }
        print(x, o);
    }
}
pub fn text(a: &A) -> String {
    let mut o = Vec::new();
    print(a, &mut o);
    unsafe { String::from_utf8_unchecked(o) }
}
pub fn parse(a: &A) -> Expr {
    let t = text(a);
    match syn::parse_str::<Expr>(&t) {
        Ok(e) => e,
        Err(_) => panic!("the generated text does not parse"),
    }
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}
pub fn astrip(a: &A) -> &A {
    match a {
        A::Par(x) => astrip(x),
        _ => a,
    }
}
pub fn opnum(op: &BinOp) -> u8 {
    match op {
        BinOp::Add(_) => 0,
        BinOp::Sub(_) => 1,
        BinOp::Mul(_) => 2,
        BinOp::Div(_) => 3,
        BinOp::Rem(_) => 4,
        BinOp::Shl(_) => 5,
        BinOp::Shr(_) => 6,
        BinOp::BitAnd(_) => 7,
        BinOp::BitXor(_) => 8,
        BinOp::BitOr(_) => 9,
        BinOp::Eq(_) => 10,
        BinOp::Ne(_) => 11,
        BinOp::Lt(_) => 12,
        BinOp::Le(_) => 13,
        BinOp::Gt(_) => 14,
        BinOp::Ge(_) => 15,
        BinOp::And(_) => 16,
        BinOp::Or(_) => 17,
        _ => 99,
    }
}
pub fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // One symbolic condition instead of one branch per byte.
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
/// Is the syn tree the harness expression? With `pars`, parentheses have to agree as well.
pub fn same(e: &Expr, a: &A, pars: bool) -> bool {
    let (e, a) = if pars { (e, a) } else { (strip(e), astrip(a)) };
    match (e, a) {
        (Expr::Paren(p), A::Par(x)) => same(&p.expr, x, pars),
        (Expr::Path(p), A::Id(t)) => {
            let s: String = toks(p).chars().filter(|c| *c != ' ').collect();
            eqb(s.as_bytes(), t)
        }
        (Expr::Lit(l), A::Num(t)) => eqb(toks(&l.lit).as_bytes(), t),
        (Expr::Unary(u), A::Neg(x)) => matches!(u.op, UnOp::Neg(_)) && same(&u.expr, x, pars),
        (Expr::Unary(u), A::Not(x)) => matches!(u.op, UnOp::Not(_)) && same(&u.expr, x, pars),
        (Expr::Binary(b), A::Bin(op, l, r)) => opnum(&b.op) == *op && same(&b.left, l, pars) && same(&b.right, r, pars),
        (Expr::MethodCall(m), A::Meth(r, n, v)) => {
            m.method == n && m.args.len() == v.len() && same(&m.receiver, r, pars) && m.args.iter().zip(v).all(|(x, y)| same(x, y, pars))
        }
        (Expr::Call(c), A::Call(n, v)) => {
            toks(&c.func) == *n && c.args.len() == v.len() && c.args.iter().zip(v).all(|(x, y)| same(x, y, pars))
        }
        (Expr::Field(f), A::Field(r, n)) => toks(&f.member) == *n && same(&f.base, r, pars),
        (Expr::Cast(c), A::Cast(x, t)) => toks(&c.ty) == *t && same(&c.expr, x, pars),
        _ => false,
    }
}
/// Are two syn trees equal once parentheses are ignored?
pub fn same_tree(a: &Expr, b: &Expr) -> bool {
    let (a, b) = (strip(a), strip(b));
    match (a, b) {
        (Expr::Unary(x), Expr::Unary(y)) => x.op == y.op && same_tree(&x.expr, &y.expr),
        (Expr::Binary(x), Expr::Binary(y)) => x.op == y.op && same_tree(&x.left, &y.left) && same_tree(&x.right, &y.right),
        (Expr::MethodCall(x), Expr::MethodCall(y)) => {
            x.method == y.method
                && x.turbofish == y.turbofish
                && x.args.len() == y.args.len()
                && same_tree(&x.receiver, &y.receiver)
                && x.args.iter().zip(y.args.iter()).all(|(p, q)| same_tree(p, q))
        }
        (Expr::Call(x), Expr::Call(y)) => {
            same_tree(&x.func, &y.func) && x.args.len() == y.args.len() && x.args.iter().zip(y.args.iter()).all(|(p, q)| same_tree(p, q))
        }
        (Expr::Field(x), Expr::Field(y)) => x.member == y.member && same_tree(&x.base, &y.base),
        (Expr::Cast(x), Expr::Cast(y)) => x.ty == y.ty && same_tree(&x.expr, &y.expr),
        _ => a == b,
    }
}

/// The meaning of an expression over the reals: variables are free, everything that is not + - * or
/// negation is an uninterpreted function of its operands.
pub fn ring(e: &Expr) -> Rg {
    match strip(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => lit_num(i.base10_digits()),
            Lit::Float(f) => lit_num(f.base10_digits()),
            o => Rg::uf(&format!("lit {}", toks(o)), &[]),
        },
        Expr::Path(p) => Rg::var(&toks(p)),
        Expr::Unary(u) => {
            let x = ring(&u.expr);
            match u.op {
                UnOp::Neg(_) => Rg::bin(b'-', Rg::num("0"), x),
                UnOp::Not(_) => Rg::uf("not", &[x]),
                UnOp::Deref(_) => Rg::uf("deref", &[x]),
            }
        }
        Expr::Binary(b) => {
            let (l, r) = (ring(&b.left), ring(&b.right));
            match &b.op {
                BinOp::Add(_) => Rg::bin(b'+', l, r),
                BinOp::Sub(_) => Rg::bin(b'-', l, r),
                BinOp::Mul(_) => Rg::bin(b'*', l, r),
                o => Rg::uf(&format!("op {}", toks(o)), &[l, r]),
            }
        }
        Expr::MethodCall(m) => {
            let mut v = vec![ring(&m.receiver)];
            v.extend(m.args.iter().map(ring));
            let t = m.turbofish.as_ref().map(|t| toks(t)).unwrap_or_default();
            Rg::uf(&format!("method {}{}", m.method, t), &v)
        }
        Expr::Call(c) => {
            let v: Vec<Rg> = c.args.iter().map(ring).collect();
            Rg::uf(&format!("call {}", toks(&c.func)), &v)
        }
        Expr::Field(f) => Rg::uf(&format!("field {}", toks(&f.member)), &[ring(&f.base)]),
        Expr::Cast(c) => Rg::uf(&format!("as {}", toks(&c.ty)), &[ring(&c.expr)]),
        o => Rg::uf(&format!("expr {}", toks(o)), &[]),
    }
}
fn lit_num(d: &str) -> Rg {
    match d.find(|c| c == 'e' || c == 'E') {
        None => Rg::num(d),
        Some(i) => {
            let k: i32 = d[i + 1..].parse().unwrap();
            let p = format!("1{}", "0".repeat(k.unsigned_abs() as usize));
            if k >= 0 {
                Rg::bin(b'*', Rg::num(&d[..i]), Rg::num(&p))
            } else {
                Rg::bin(b'/', Rg::num(&d[..i]), Rg::num(&p))
            }
        }
    }
}

/// Is there a sum, difference or negated/multiplied sum below a product or a negation?
pub fn has_sum_inside(e: &Expr) -> bool {
    fn is_sum(e: &Expr) -> bool {
        match strip(e) {
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)),
            _ => false,
        }
    }
    match strip(e) {
        Expr::Binary(b) => match b.op {
            BinOp::Add(_) | BinOp::Sub(_) => has_sum_inside(&b.left) || has_sum_inside(&b.right),
            BinOp::Mul(_) => is_sum(&b.left) || is_sum(&b.right) || has_sum_inside(&b.left) || has_sum_inside(&b.right),
            _ => false,
        },
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => is_sum(&u.expr) || has_sum_inside(&u.expr),
        _ => false,
    }
}
/// Does a subtraction have a sum or difference on its right?
pub fn sub_of_sum(e: &Expr) -> bool {
    match strip(e) {
        Expr::Binary(b) => match b.op {
            BinOp::Add(_) => sub_of_sum(&b.left) || sub_of_sum(&b.right),
            BinOp::Sub(_) => {
                let r = match strip(&b.right) {
                    Expr::Binary(x) => matches!(x.op, BinOp::Add(_) | BinOp::Sub(_)),
                    _ => false,
                };
                r || sub_of_sum(&b.left) || sub_of_sum(&b.right)
            }
            _ => false,
        },
        _ => false,
    }
}

/// A decimal number as (negative, mantissa, number of decimals) read from literal text; None when it is not
/// of the form [-]digits[.digits].
pub fn decimal(t: &str) -> Option<(bool, i64, u32)> {
    let b = t.as_bytes();
    let (neg, b) = if !b.is_empty() && b[0] == b'-' { (true, &b[1..]) } else { (false, b) };
    let mut v: i64 = 0;
    let mut dec = 0;
    let mut dot = false;
    let mut any = false;
    for &c in b {
        if c == b'.' {
            if dot {
                return None;
            }
            dot = true;
        } else if c == b'_' || c == b' ' {
        } else if c.is_ascii_digit() {
            v = v * 10 + (c - b'0') as i64;
            any = true;
            if dot {
                dec += 1;
            }
        } else {
            return None;
        }
    }
    if any {
        Some((neg, v, dec))
    } else {
        None
    }
}
pub fn p10(n: u32) -> i64 {
    let mut r = 1;
    for _ in 0..n {
        r *= 10;
    }
    r
}
pub fn digit(tag: &str) -> u8 {
    u64_in(b'0' as u64, b'9' as u64, tag) as u8
}
pub fn letter(lo: u8, hi: u8, tag: &str) -> u8 {
    u64_in(lo as u64, hi as u64, tag) as u8
}
