//! C07 number retyping.
use crate::common::*;
use doctor_syn::*;
use symrt::*;
use syn::{Expr, Lit};

/// The bits of the float nearest to a numeric literal's text (suffix and separators removed), as the
/// compiler would read it; digits/10^s with few enough digits is decided by one exact division instead.
fn nearest(t: &[u8], bits: usize) -> Option<u64> {
    let mut d = vec![];
    let (mut m, mut s, mut dot, mut plain) = (0u64, 0, false, true);
    let hex = t.len() > 1 && t[0] == b'0' && (t[1] | 32) == b'x';
    let mut i = if hex { 2 } else { 0 };
    while i < t.len() {
        let c = t[i];
        if c == b'_' {
        } else if hex {
            let v = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => break,
            };
            m = m * 16 + v as u64;
        } else if c == b'.' {
            dot = true;
            d.push(c);
        } else if c.is_ascii_digit() {
            m = if d.len() < 19 { m * 10 + (c - b'0') as u64 } else { m };
            s += dot as u32;
            d.push(c);
        } else if c == b'e' || c == b'E' {
            plain = false;
            d.push(c);
            if i + 1 < t.len() && (t[i + 1] == b'-' || t[i + 1] == b'+') {
                i += 1;
                d.push(t[i]);
            }
        } else {
            break;
        }
        i += 1;
    }
    if hex {
        return Some(if bits == 32 { (m as f32).to_bits() as u64 } else { (m as f64).to_bits() });
    }
    if plain && d.len() <= 7 {
        let p = p10(s) as u64;
        return Some(if bits == 32 { (m as f32 / p as f32).to_bits() as u64 } else { (m as f64 / p as f64).to_bits() });
    }
    let t = core::str::from_utf8(&d).ok()?;
    if bits == 32 {
        t.parse::<f32>().ok().map(|x| x.to_bits() as u64)
    } else {
        t.parse::<f64>().ok().map(|x| x.to_bits())
    }
}
fn literal_ok(e: &Expr, src: &[u8], fmt: &str, bits: usize) -> bool {
    let Some(want) = nearest(src, bits) else { return false };
    let ty = if bits == 32 { "f32" } else { "f64" };
    let s = toks(e);
    note(&s);
    if fmt == "decimal" {
        let Expr::Lit(l) = e else { return false };
        let t = match &l.lit {
            Lit::Float(f) if f.suffix() == ty => f.base10_digits().to_string(),
            Lit::Int(i) if i.suffix() == ty => i.base10_digits().to_string(),
            _ => return false,
        };
        let got = if bits == 32 { t.parse::<f32>().map(|x| x.to_bits() as u64) } else { t.parse::<f64>().map(|x| x.to_bits()) };
        got == Ok(want)
    } else {
        let Expr::Call(c) = e else { return false };
        if toks(&c.func) != (if bits == 32 { "f32 :: from_bits" } else { "f64 :: from_bits" }) || c.args.len() != 1 {
            return false;
        }
        let Expr::Lit(l) = &c.args[0] else { return false };
        let Lit::Int(i) = &l.lit else { return false };
        if !(i.suffix() == "" || i.suffix() == (if bits == 32 { "u32" } else { "u64" })) {
            return false;
        }
        match i.base10_parse::<u64>() {
            Ok(v) => v == want,
            Err(_) => false,
        }
    }
}
fn numeric(t: &[u8]) -> bool {
    t[0].is_ascii_digit()
}
/// Is `e` the tree `a` with its numeric literals retyped?
fn retyped(e: &Expr, a: &A, fmt: &str, bits: usize) -> bool {
    let r = |e: &Expr, a: &A| retyped(e, a, fmt, bits);
    match (e, a) {
        (_, A::Num(t)) if numeric(t) => literal_ok(e, t, fmt, bits),
        (Expr::Paren(p), A::Par(x)) => r(&p.expr, x),
        (Expr::Unary(u), A::Neg(x)) => matches!(u.op, syn::UnOp::Neg(_)) && r(&u.expr, x),
        (Expr::Unary(u), A::Not(x)) => matches!(u.op, syn::UnOp::Not(_)) && r(&u.expr, x),
        (Expr::Binary(b), A::Bin(op, x, y)) => opnum(&b.op) == *op && r(&b.left, x) && r(&b.right, y),
        (Expr::MethodCall(m), A::Meth(x, n, v)) => {
            m.turbofish.is_none() && m.method == n && m.args.len() == v.len() && r(&m.receiver, x) && m.args.iter().zip(v).all(|(p, q)| r(p, q))
        }
        (Expr::Field(f), A::Field(x, n)) => toks(&f.member) == *n && r(&f.base, x),
        (Expr::Call(c), A::Call(n, v)) => toks(&c.func) == *n && c.args.len() == v.len() && c.args.iter().zip(v).all(|(p, q)| r(p, q)),
        (Expr::Cast(c), A::Cast(x, t)) => toks(&c.ty) == *t && r(&c.expr, x),
        _ => same(e, a, true),
    }
}
fn supported(a: &A) -> bool {
    match a {
        A::Par(x) | A::Neg(x) | A::Not(x) | A::Field(x, _) => supported(x),
        A::Bin(_, x, y) => supported(x) && supported(y),
        A::Meth(x, _, v) => supported(x) && v.iter().all(supported),
        A::Call(..) | A::Cast(..) => false,
        _ => true,
    }
}
fn overflows(a: &A, bits: usize) -> bool {
    let o = |x: &A| overflows(x, bits);
    match a {
        A::Num(t) if numeric(t) => match nearest(t, bits) {
            Some(b) => b == if bits == 32 { 0x7f800000 } else { 0x7ff << 52 },
            None => false,
        },
        A::Par(x) | A::Neg(x) | A::Not(x) | A::Field(x, _) | A::Cast(x, _) => o(x),
        A::Bin(_, x, y) => o(x) || o(y),
        A::Meth(x, _, v) => o(x) || v.iter().any(|x| overflows(x, bits)),
        A::Call(_, v) => v.iter().any(|x| overflows(x, bits)),
        _ => false,
    }
}
fn retype_case(a: A, fmt: &str, bits: usize) {
    let a = fix(a);
    let e: Expression = parse(&a).into();
    note(&text(&a));
    note(fmt);
    note_v("width", bits as u64);
    nopanic(Some("retype: no panic"));
    let r = e.use_number_type(fmt, bits);
    nopanic(None);
    let known = (fmt == "decimal" || fmt == "hex") && (bits == 32 || bits == 64);
    match r {
        Ok(r) => {
            let t = r.to_string();
            note(&t);
            let x: Expr = match syn::parse_str(&t) {
                Ok(x) => x,
                Err(_) => {
                    check(false, "retype: the printed result parses");
                    return;
                }
            };
            if known {
                reach("retyped");
                check(!overflows(&a, bits), "retype: a literal beyond the largest float is refused");
                check(retyped(&x, &a, fmt, bits), "retype: literals become the nearest float of the width, the rest is unchanged");
            } else {
                reach("unknown format");
                check(same(&x, &a, true), "retype: an unknown format leaves the expression unchanged");
            }
        }
        Err(_) => {
            reach("refused");
            check(!supported(&a) || known && overflows(&a, bits), "retype: a supported expression is not refused");
        }
    }
}
fn b(x: A) -> Box<A> {
    Box::new(x)
}
fn fmt_bits() -> (&'static str, usize) {
    let f = if choose(2, "format") == 0 { "decimal" } else { "hex" };
    (f, if choose(2, "width") == 0 { 32 } else { 64 })
}
/// Short literals, every digit symbolic.
fn short(k: u64) -> A {
    let d = || digit("d");
    A::Num(match k {
        0 => vec![d()],
        1 => vec![d(), b'.', d()],
        2 => vec![d(), d(), d()],
        3 => vec![d(), b'.', d(), d()],
        4 => vec![b'0', b'.', b'0', d(), d()],
        5 => vec![d(), b'.'],
        _ => vec![d(), d(), b'.', d()],
    })
}
#[no_mangle]
pub extern "C" fn h_c07_short() {
    let (f, w) = fmt_bits();
    let l = short(choose(7, "form"));
    retype_case(l, f, w);
}
/// Literals whose rounding is hard: ties and near-ties of both widths, subnormals, the largest values.
#[no_mangle]
pub extern "C" fn h_c07_hard() {
    let (f, w) = fmt_bits();
    let t: &[&str] = &[
        "1677721?", "3355443?", "6710886?.0", "1.0000000596046447?", "1.0000000596046448?", "0.10000000149011?", "900719925474099?",
        "1801439850948198?", "1.000000000000000111022302462516?", "1?e-45", "7.0064923216240853e-4?", "1.40129846432481707e-45", "2.47032822920623e-32?", "2.47032822920623e-32?",
        "3.40282347e3?", "3.4028235677973366e3?", "1.797693134862315?e308", "1e3?", "1e30?", "123456789012345678?", "18446744073709551615?", "8.589973?e9",
        "0.3333333333333333?", "5.960464477539063e-?", "1.00000017881393421514957253748434595763683319091796875001e?", "1.0000001788139343?",
        "99999999?", "0.00000000000000000000000000000000000000000000?",
    ];
    let k = choose(t.len() as u64, "form") as usize;
    retype_case(A::Num(wild(t[k])), f, w);
}
fn wild(t: &str) -> Vec<u8> {
    t.bytes().map(|c| if c == b'?' { digit("d") } else { c }).collect()
}
/// Written forms: separators, suffixes, radices, exponents.
#[no_mangle]
pub extern "C" fn h_c07_forms() {
    let (f, w) = fmt_bits();
    let t: &[&str] = &[
        "1_0?.2_5", "?f32", "?.5f64", "?u8", "1?i64", "0x?", "0xff?", "0b1?1", "0o1?", "1?e2", "?.5e-3", "2E?", "?e+5", "0?", "00?.0", "?.", "0xffff_ff?", "?_u32", "1_?.0_1_f32",
    ];
    let k = choose(t.len() as u64, "form") as usize;
    let mut v = wild(t[k]);
    if t[k].starts_with("0b") {
        v[3] = u64_in(b'0' as u64, b'1' as u64, "b") as u8;
    }
    if t[k].starts_with("0o") {
        assume(v[3] < b'8');
    }
    let t = t[k];
    if t.starts_with("0b") || t.starts_with("0o") {
        // compared as the decimal number they denote
        let n = if t.starts_with("0b") { 5 + 2 * (v[3] - b'0') as u64 } else { 8 + (v[3] - b'0') as u64 };
        let e: Expression = parse(&A::Num(v.clone())).into();
        note(&text(&A::Num(v)));
        nopanic(Some("retype: no panic"));
        let r = e.use_number_type(f, w);
        nopanic(None);
        match r {
            Ok(r) => {
                let x: Expr = syn::parse_str(&r.to_string()).unwrap();
                let want = vec![b'0' + (n / 10) as u8, b'0' + (n % 10) as u8];
                check(retyped(&x, &A::Num(want), f, w), "retype: literals become the nearest float of the width, the rest is unchanged");
            }
            Err(_) => check(false, "retype: a supported expression is not refused"),
        }
        return;
    }
    retype_case(A::Num(v), f, w);
}
/// Literals inside every kind of expression, two nested constructs.
fn around(k: u64, l: A, m: A, nops: u64) -> A {
    match k {
        0 => par(l),
        1 => A::Neg(b(l)),
        2 => A::Not(b(l)),
        3 => A::Bin(choose(nops, "op") as u8, b(l), b(m)),
        4 => A::Bin(choose(nops.min(4), "op") as u8, b(m), b(l)),
        5 => A::Meth(b(l), "mul_add", vec![m, id("x")]),
        6 => A::Meth(b(id("x")), "mul_add", vec![m, l]),
        7 => A::Meth(b(par(l)), "sqrt", vec![]),
        8 => A::Field(b(par(l)), "y"),
        9 => A::Field(b(id("x")), "0"),
        10 => A::Call("f", vec![l, m]),
        11 => A::Cast(b(l), "f32"),
        12 => A::Bin(0, b(id("f32::consts::PI")), b(l)),
        13 => A::Bin(2, b(A::Num(b"\"1.5\"".to_vec())), b(l)),
        14 => A::Bin(2, b(A::Num(b"true".to_vec())), b(l)),
        15 => A::Bin(2, b(A::Num(b"'3'".to_vec())), b(l)),
        _ => A::Meth(b(A::Meth(b(id("y")), "max", vec![l])), "f", vec![m]),
    }
}
#[no_mangle]
pub extern "C" fn h_c07_context() {
    let (f, w) = fmt_bits();
    let a = if choose(2, "nest") == 0 { one(18) } else { two(3) };
    retype_case(a, f, w);
}
#[no_mangle]
pub extern "C" fn h_c07_context_ops() {
    let (f, w) = fmt_bits();
    let a = two(18);
    retype_case(a, f, w);
}
fn one(nops: u64) -> A {
    let l = A::Num(vec![digit("d")]);
    around(choose(17, "inner"), l, A::Num(b"2.5".to_vec()), nops)
}
fn two(nops: u64) -> A {
    let inner = one(nops);
    around(choose(17, "outer"), inner, A::Num(b"7".to_vec()), nops)
}
/// Formats and widths that mean nothing.
#[no_mangle]
pub extern "C" fn h_c07_unknown() {
    let (f, w) = match choose(6, "case") {
        0 => ("octal", 32),
        1 => ("", 64),
        2 => ("decimal", 16),
        3 => ("hex", 128),
        4 => ("Hex", 32),
        _ => ("decimal", 0),
    };
    let l = short(choose(4, "form"));
    let a = around(choose(17, "around"), l, A::Num(b"1e39".to_vec()), 3);
    retype_case(a, f, w);
}
