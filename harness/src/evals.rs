//! C02 evaluation of arithmetic, C03 errors instead of crashes, C08 rounding of decimals.
use crate::common::*;
use doctor_syn::bdmath::{round, BigDecimal, BigInt};
use doctor_syn::*;
use symrt::*;

/// An exact decimal (mantissa, number of decimals) or a truth value.
#[derive(Clone, Copy, Debug)]
enum V {
    N(i64, u32),
    B(bool),
}
fn abs(x: i64) -> i64 {
    if x < 0 {
        -x
    } else {
        x
    }
}
/// num/den to the nearest multiple of 10^-nd, ties away from zero, in units of 10^-nd.
fn nearest(num: i64, den: i64, nd: u32) -> i64 {
    let (num, den) = if den < 0 { (-num, -den) } else { (num, den) };
    let n = num * p10(nd);
    let q = (2 * abs(n) + den) / (2 * den);
    if n < 0 {
        -q
    } else {
        q
    }
}
fn lit_value(t: &[u8]) -> (i64, u32) {
    let (mut m, mut s, mut dot) = (0i64, 0, false);
    for &c in t {
        if c == b'.' {
            dot = true;
        } else {
            m = m * 10 + (c - b'0') as i64;
            s += dot as u32;
        }
    }
    (m, s)
}
fn ev(a: &A, nd: u32) -> Option<V> {
    Some(match a {
        A::Num(t) if t[0] == b'"' => return None,
        A::Num(t) => {
            let (m, s) = lit_value(t);
            V::N(m, s)
        }
        A::Par(x) => ev(x, nd)?,
        A::Neg(x) => match ev(x, nd)? {
            V::N(m, s) => V::N(-m, s),
            V::B(_) => return None,
        },
        A::Meth(r, n, v) if v.is_empty() => match (ev(r, nd)?, *n) {
            (V::N(m, s), "abs") => V::N(abs(m), s),
            (V::N(m, _), "signum") => V::N(if m > 0 { 1 } else if m < 0 { -1 } else { 0 }, 0),
            (V::N(m, s), "round") => V::N(nearest(m, p10(s), 0), 0),
            _ => return None,
        },
        A::Bin(op, l, r) => {
            let (V::N(lm, ls), V::N(rm, rs)) = (ev(l, nd)?, ev(r, nd)?) else { return None };
            let k = ls.max(rs);
            let (x, y) = (lm * p10(k - ls), rm * p10(k - rs));
            match op {
                0 => V::N(x + y, k),
                1 => V::N(x - y, k),
                2 if ls + rs <= nd => V::N(lm * rm, ls + rs),
                2 => V::N(nearest(lm * rm, p10(ls + rs), nd), nd),
                3 => {
                    if y == 0 {
                        return None;
                    }
                    V::N(nearest(x, y, nd), nd)
                }
                10 => V::B(x == y),
                11 => V::B(x != y),
                12 => V::B(x < y),
                13 => V::B(x <= y),
                14 => V::B(x > y),
                15 => V::B(x >= y),
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn compare(s: &str, want: V) {
    match want {
        V::B(b) => check((s == "true") == b && (s == "false") == !b, "eval: a comparison gives its truth value"),
        V::N(m, k) => match decimal(s) {
            Some((neg, rm, d)) => {
                assume(d <= 15);
                let r = if neg { -rm } else { rm };
                let t = d.max(k);
                check(r * p10(t - d) == m * p10(t - k), "eval: the literal is the exact value to the requested digits")
            }
            None => check(false, "eval: the literal is a decimal number"),
        },
    }
}
fn eval_case(a: A, nd: u32) {
    let a = fix(a);
    let e: Expression = parse(&a).into();
    note(&text(&a));
    note_v("digits", nd as u64);
    nopanic(Some("eval: no panic"));
    let r = e.eval(nd as i64);
    nopanic(None);
    match (r, ev(&a, nd)) {
        (Ok(r), Some(v)) => {
            check(r.is_lit(), "eval: the result is a literal");
            let s = r.to_string();
            note(&s);
            reach("evaluated");
            compare(&s, v);
        }
        (Err(_), None) => reach("refused"),
        (Ok(r), None) => {
            note(&r.to_string());
            check(false, "eval: an undefined value is an error");
        }
        (Err(_), Some(_)) => check(false, "eval: a defined value is not an error"),
    }
}
/// Literals with symbolic digits; `k` selects the form.
fn lit(k: u64, tag: &str) -> A {
    let d = || digit(tag);
    A::Num(match k {
        0 => vec![d()],
        1 => vec![d(), b'.', d()],
        2 => vec![b'0', b'.', d(), d()],
        3 => vec![d(), d()],
        4 => vec![d(), d(), b'.', d()],
        5 => vec![d(), b'.', d(), d()],
        6 => vec![d(), b'.', b'5', b'0'],
        7 => vec![d(), b'.', d(), b'5'],
        _ => vec![b'4', b'.', b'9', b'9', d()],
    })
}
fn sign(a: A, tag: &str) -> A {
    if choose(2, tag) == 0 {
        a
    } else {
        A::Neg(Box::new(a))
    }
}
fn bin(op: u8, l: A, r: A) -> A {
    A::Bin(op, Box::new(l), Box::new(r))
}
fn meth(r: A, n: &'static str) -> A {
    A::Meth(Box::new(r), n, vec![])
}
/// Sums and differences of two and three signed terms.
#[no_mangle]
pub extern "C" fn h_c02_sums() {
    let k = choose(3, "form");
    let a = sign(lit(k, "a"), "sign");
    let b = sign(lit(choose(2, "form"), "b"), "sign");
    let op = choose(2, "op") as u8;
    let e = bin(op, a, b);
    let e = match choose(4, "outer") {
        0 => e,
        1 => A::Neg(Box::new(par(e))),
        2 => bin(0, A::Num(b"9.5".to_vec()), e),
        _ => bin(1, A::Num(b"7".to_vec()), par(e)),
    };
    eval_case(e, choose(2, "digits") as u32);
}
#[no_mangle]
pub extern "C" fn h_c02_compare() {
    let op = 10 + choose(6, "op") as u8;
    let (f, g) = match choose(6, "forms") {
        0 => (0, 0),
        1 => (1, 0),
        2 => (0, 6),
        3 => (1, 6),
        4 => (2, 1),
        _ => (3, 1),
    };
    let a = sign(lit(f, "a"), "sign");
    let b = sign(lit(g, "b"), "sign");
    eval_case(bin(op, a, b), 3);
}
/// Comparisons of results of arithmetic.
#[no_mangle]
pub extern "C" fn h_c02_compare_sum() {
    let op = 10 + choose(6, "op") as u8;
    let a = bin(choose(2, "op") as u8, lit(0, "a"), lit(1, "b"));
    eval_case(bin(op, a, lit(0, "c")), 3);
}
#[no_mangle]
pub extern "C" fn h_c02_product() {
    let a = lit([0, 1, 2, 7][choose(4, "form") as usize], "a");
    let b = lit([0, 1, 2][choose(3, "form") as usize], "b");
    let nd = choose(3, "digits") as u32;
    eval_case(bin(2, sign(a, "sign"), b), nd);
}
#[no_mangle]
pub extern "C" fn h_c02_product_deep() {
    let a = lit([5, 4, 8][choose(3, "form") as usize], "a");
    let b = lit([1, 5][choose(2, "form") as usize], "b");
    let nd = choose(5, "digits") as u32;
    eval_case(bin(2, sign(a, "sign"), b), nd);
}
const DIV: &[&[u8]] = &[b"1", b"2", b"3", b"4", b"7", b"8", b"9", b"0.3", b"0.7", b"16", b"1.25", b"0", b"0.0", b"64", b"99"];
#[no_mangle]
pub extern "C" fn h_c02_quotient() {
    let a = lit([0, 1][choose(2, "form") as usize], "a");
    let b = A::Num(DIV[choose(DIV.len() as u64, "divisor") as usize].to_vec());
    let nd = [0, 1, 2, 5][choose(4, "digits") as usize];
    eval_case(bin(3, sign(a, "sign"), sign(b, "sign")), nd);
}
/// A symbolic divisor.
#[no_mangle]
pub extern "C" fn h_c02_divisor() {
    let a = A::Num([&b"1"[..], b"5", b"22", b"0"][choose(4, "dividend") as usize].to_vec());
    let b = lit(choose(2, "form"), "b");
    eval_case(bin(3, a, sign(b, "sign")), [0, 3][choose(2, "digits") as usize]);
}
/// Every product and quotient is rounded where it stands.
#[no_mangle]
pub extern "C" fn h_c02_nested() {
    let nd = choose(3, "digits") as u32;
    let (a, b) = (lit(1, "a"), lit(1, "b"));
    let c = || A::Num(b"2.5".to_vec());
    let e = match choose(8, "shape") {
        0 => bin(2, bin(2, a, c()), c()),
        1 => bin(2, c(), par(bin(2, a, b))),
        2 => bin(0, bin(2, a, c()), bin(2, b, c())),
        3 => bin(1, bin(2, a, b), bin(3, c(), A::Num(b"3".to_vec()))),
        4 => A::Neg(Box::new(par(bin(2, a, b)))),
        5 => bin(2, par(bin(1, a, b)), c()),
        6 => bin(3, par(bin(1, a, b)), A::Num(b"8".to_vec())),
        _ => bin(2, A::Neg(Box::new(a)), A::Neg(Box::new(par(bin(1, b, c()))))),
    };
    eval_case(e, nd);
}
#[no_mangle]
pub extern "C" fn h_c02_methods() {
    let n = ["abs", "signum", "round"][choose(3, "method") as usize];
    let x = match choose(6, "operand") {
        0 => par(sign(lit(1, "a"), "sign")),
        1 => par(sign(lit(5, "a"), "sign")),
        2 => par(sign(lit(0, "a"), "sign")),
        3 => par(sign(lit(8, "a"), "sign")),
        4 => par(bin(1, lit(1, "a"), lit(1, "b"))),
        _ => par(sign(lit(4, "a"), "sign")),
    };
    let e = meth(x, n);
    let e = match choose(3, "outer") {
        0 => e,
        1 => A::Neg(Box::new(e)),
        _ => bin(0, e, A::Num(b"0.25".to_vec())),
    };
    eval_case(e, 2);
}

// ---- C03 ----
/// No panic; a literal or an error. `must_fail`: the value is undefined.
fn total(t: &str, nd: i64, must_fail: bool) {
    let e = match syn::parse_str::<syn::Expr>(t) {
        Ok(e) => Expression::from(e),
        Err(_) => panic!("the generated text does not parse"),
    };
    note(t);
    note_v("digits", nd as u64);
    nopanic(Some("eval: no panic"));
    let r = e.eval(nd);
    if let Err(e) = &r {
        let s = format!("{}", e);
        check(!s.is_empty(), "eval: the error can be printed");
    }
    nopanic(None);
    match r {
        Ok(r) => {
            reach("literal");
            note(&r.to_string());
            check(r.is_lit(), "eval: the result is a literal");
            check(!must_fail, "eval: an undefined value is an error");
        }
        Err(_) => {
            reach("error");
            check(must_fail, "eval: a defined value is not an error");
        }
    }
}
fn join(parts: &[&[u8]]) -> String {
    unsafe { String::from_utf8_unchecked(parts.concat()) }
}
fn b(d: u8) -> [u8; 1] {
    [d]
}
/// Arithmetic with a possibly zero divisor or unbound variable somewhere in it.
#[no_mangle]
pub extern "C" fn h_c03_arith() {
    let ops = [0u8, 1, 2, 3, 12];
    let leaf = |g: u64| -> A {
        match g {
            0 => A::Num(vec![digit("leaf")]),
            1 => id("x"),
            2 => A::Num(b"\"s\"".to_vec()),
            3 => A::Id(b"a::PI".to_vec()),
            _ => A::Id(b"true".to_vec()),
        }
    };
    let o = ops[choose(5, "op") as usize];
    let p = ops[choose(5, "op") as usize];
    // One symbolic digit where there is a division, three otherwise.
    let few = o == 3 || p == 3;
    let l = choose(3, "leaf");
    let l = if few && l == 0 { A::Num(b"6".to_vec()) } else { leaf(l) };
    let m = leaf(choose(5, "leaf"));
    let r = [0, 1][choose(2, "leaf") as usize];
    let r = if few && r == 0 { A::Num([&b"0"[..], b"4"][choose(2, "divisor") as usize].to_vec()) } else { leaf(r) };
    let e = if choose(2, "side") == 0 { bin(o, bin(p, l, m), r) } else { bin(o, l, par(bin(p, m, r))) };
    eval_case(e, 2);
}
/// Operators that evaluation does not define.
#[no_mangle]
pub extern "C" fn h_c03_operators() {
    let op = [4u8, 5, 6, 7, 8, 9, 16, 17][choose(8, "op") as usize];
    let d = A::Num(vec![digit("d")]);
    let e = match choose(4, "shape") {
        0 => bin(op, d, A::Num(b"2".to_vec())),
        1 => bin(0, A::Num(b"1".to_vec()), par(bin(op, d, A::Num(b"2".to_vec())))),
        2 => A::Not(Box::new(d)),
        _ => A::Neg(Box::new(par(bin(op, A::Num(b"1".to_vec()), d)))),
    };
    let e = fix(e);
    total(&text(&e), 2, true);
}
/// Methods: every known name and some unknown ones with zero to three arguments.
#[no_mangle]
pub extern "C" fn h_c03_counts() {
    const NAMES: &[(&str, u64)] = &[
        ("round", 0), ("abs", 0), ("signum", 0), ("recip", 0), ("powi", 1), ("powf", 1), ("sqrt", 0), ("exp", 0), ("exp2", 0), ("ln", 0),
        ("log", 1), ("log2", 0), ("log10", 0), ("sin", 0), ("cos", 0), ("tan", 0), ("asin", 0), ("acos", 0), ("atan", 0), ("erf", 0),
        ("erfc", 0), ("dnorm", 2), ("pnorm", 2), ("qnorm", 2), ("round_ieee", 1), ("floor", 9), ("mul_add", 9), ("max", 9), ("cbrt", 9), ("to_f64", 9), ("nosuch", 9),
    ];
    let (n, want) = NAMES[choose(NAMES.len() as u64, "method") as usize];
    let k = choose(4, "arguments");
    assume(k != want);
    let d = b(digit("d"));
    let args: &[u8] = [&b""[..], b"1", b"0.5, 1", b"1, 2, 3"][k as usize];
    total(&join(&[&d, b".5.", n.as_bytes(), b"(", args, b")"]), 3, true);
}
/// Arguments outside the domain, with symbolic digits.
#[no_mangle]
pub extern "C" fn h_c03_domain() {
    let d = b(digit("d"));
    let (a, z) = (d[0], b'0');
    let p = choose(26, "case");
    let t = match p {
        0 => join(&[b"(-", &d, b".5).sqrt()"]),
        1 => join(&[b"(-", &d, b".5).ln()"]),
        2 => join(&[b"(-", &d, b").log2()"]),
        3 => join(&[b"(", &d, b" - 9).log10()"]),
        4 => join(&[b"2.log(-", &d, b")"]),
        5 => join(&[b"(-", &d, b").log(2)"]),
        6 => {
            assume(a != z);
            join(&[b"1.", &d, b".asin()"])
        }
        7 => {
            assume(a != z);
            join(&[b"(-1.", &d, b").acos()"])
        }
        8 => join(&[b"2.", &d, b".acos()"]),
        9 => {
            assume(a == z);
            join(&[b"0.", &d, b".recip()"])
        }
        10 => join(&[b"1.dnorm(0.", &d, b", 0)"]),
        11 => join(&[b"1.pnorm(0, -", &d, b")"]),
        12 => join(&[b"1.", &d, b".qnorm(0, 1)"]),
        13 => join(&[b"(-0.", &d, b").qnorm(0, 1)"]),
        14 => join(&[b"0.5.qnorm(0, -", &d, b")"]),
        15 => {
            assume(a != b'3' && a != b'6');
            join(&[b"2.5.round_ieee(", &d, b")"])
        }
        16 => join(&[b"2.5.round_ieee(1", &d, b")"]),
        17 => {
            assume(a != z);
            join(&[b"(-0.", &d, b").powf(0.5)"])
        }
        18 => join(&[b"(1 < ", &d, b").abs()"]),
        _ => {
            // Just below zero, at several magnitudes.
            assume(a != z);
            let lead = [&b"(-0."[..], b"(-0.00", b"(0 - 0.0000"][choose(3, "magnitude") as usize];
            let m = [&b").sqrt()"[..], b").ln()", b").log2()", b").log10()", b").log(2)", b").powf(0.5)", b").qnorm(0, 1)"][p as usize - 19];
            join(&[lead, &d, m])
        }
    };
    total(&t, 2, true);
}
/// Edges of the domains, with concrete arguments: defined values evaluate, undefined ones are refused.
#[no_mangle]
pub extern "C" fn h_c03_edges() {
    const CASES: &[(&str, bool)] = &[
        ("0.sqrt()", false), ("1.sqrt()", false), ("0.25.sqrt()", false), ("0.ln()", true), ("1.ln()", false), ("0.log2()", true), ("1.log2()", false), ("0.log10()", true),
        ("2.log(0)", true), ("2.log(1)", true), ("2.log(1.00)", true), ("1.log(1)", true), ("1.log(2)", false), ("2.log(0.5)", false), ("0.log(2)", true),
        ("1.asin()", false), ("(-1).asin()", false), ("0.asin()", false), ("1.acos()", false), ("(-1).acos()", false), ("1.1.asin()", true),
        ("0.recip()", true), ("0.0.recip()", true), ("(1 - 1).recip()", true), ("4.recip()", false), ("0.atan()", false), ("0.tan()", false), ("0.powf(2)", true), ("1.powi(0)", false), ("0.exp()", false), ("(-3).exp2()", false),
        ("0.dnorm(0, 1)", false), ("0.dnorm(0, 0)", true), ("0.pnorm(0, 1)", false), ("0.pnorm(0, 0)", true), ("0.pnorm(0, 1 - 1)", true), ("0.5.qnorm(0, 1)", false), ("0.qnorm(0, 1)", true), ("1.qnorm(0, 1)", true), ("0.5.qnorm(0, 0)", true),
        ("1 / 0", true), ("1 / 0.0", true), ("0 / 0", true), ("1 / (2 - 2)", true), ("(1 / 0).abs()", true), ("PI", false), ("pi", true), ("f64::PI", true), ("-PI", false), ("0.erf()", false), ("1.erfc()", false),
        ("x", true), ("f(1)", true), ("1.5.x", true), ("(1, 2)", true), ("[1]", true), ("x[0]", true), ("1 as f32", true), ("if 1 < 2 { 1 } else { 2 }", true), ("{ 1 }", true), ("|x| 1", true), ("1..2", true), ("&1", true), ("*1", true), ("!1", true), ("!true", true), ("m!(1)", true),
        ("x = 1", true), ("x += 1", true), ("return 1", true), ("loop {}", true), ("match 1 { _ => 1 }", true), ("S { a: 1 }", true), ("unsafe { 1 }", true), ("1 < 2 == true", true), ("'a'", false), ("\"s\"", false), ("true", false), ("b'a'", false), ("\"s\".abs()", true), ("-\"s\"", true), ("-true", true), ("'a' + 1", true), ("1e3", false), ("1e-3 * 1e3", false), ("0x1f + 1", false), ("1_000.5", false), ("3f32", false), ("3usize + 1.5f64", false),
        ("1.round_ieee(32)", false), ("1.round_ieee(64)", false), ("1.round_ieee(32.5)", false), ("1.round_ieee(16)", true), ("0.round_ieee(32)", false), ("1e99.round_ieee(32)", true), ("1e999.round_ieee(64)", true),
    ];
    let (t, bad) = CASES[choose(CASES.len() as u64, "case") as usize];
    // Literals followed by a method need a space-free form; the texts above parse as they are.
    total(t, 1 + choose(2, "digits") as i64, bad);
}
/// Arguments where an intermediate result rounds to zero.
#[no_mangle]
pub extern "C" fn h_c03_poles() {
    const CASES: &[&str] = &["1.57.tan()", "1.5707963.tan()", "4.712.tan()", "(PI / 2).tan()", "2.log(1.0000001)", "2.log(1.01)", "0.001.recip()", "1 / 0.0001", "0.00001.ln()", "(0.0001 * 0.0001).recip()", "1 / (0.001 * 0.001)", "(1 / 300).ln()", "0.001.dnorm(0, 0.001)"];
    let t = CASES[choose(CASES.len() as u64, "case") as usize];
    let e: Expression = t.parse().unwrap();
    let nd = choose(4, "digits") as i64;
    note(t);
    note_v("digits", nd as u64);
    nopanic(Some("eval: no panic"));
    let r = e.eval(nd);
    nopanic(None);
    reach("returned");
    match r {
        Ok(r) => check(r.is_numeric(), "eval: the result is a literal"),
        Err(_) => check(true, "eval: an error"),
    }
}

// ---- C08 ----
fn round_case(bits: u32, scale: u32, nd: u32) {
    let mag = u64_in(0, (1u64 << bits) - 1, "m");
    let neg = choose(2, "sign") == 1;
    let m = if neg { -(mag as i64) } else { mag as i64 };
    let x = BigDecimal::new(BigInt::from(m), scale as i64);
    note_v("scale", scale as u64);
    note_v("digits", nd as u64);
    note_v("mantissa", m as u64);
    nopanic(Some("round: no panic"));
    let r = round(x, nd as i64);
    let (b, e) = r.into_bigint_and_exponent();
    nopanic(None);
    reach("rounded");
    use bigdecimal::ToPrimitive;
    let q = match b.to_i64() {
        Some(q) => q,
        None => {
            check(false, "round: the result is in range");
            return;
        }
    };
    if scale <= nd {
        let e = conc(e as u64) as i64;
        check(e >= 0 && e <= 12, "round: the result has few decimals");
        let k = (e as u32).max(scale);
        assume(k - (e as u32) <= 8);
        check(q * p10(k - e as u32) == m * p10(k - scale), "round: a short value is unchanged");
        return;
    }
    let e = conc(e as u64) as i64;
    check(e >= 0 && e as u32 <= nd, "round: a multiple of the unit");
    let q = q * p10(nd - e as u32);
    let k = p10(scale - nd);
    // The nearest multiple of the magnitude, ties upwards; the sign is kept.
    let want = (mag + k as u64 / 2) / k as u64;
    check(if neg { -q } else { q } == want as i64, "round: the nearest multiple, ties away from zero");
}
#[no_mangle]
pub extern "C" fn h_c08_round() {
    let scale = choose(6, "scale") as u32;
    let nd = choose(5, "digits") as u32;
    round_case(20, scale, nd);
}
#[no_mangle]
pub extern "C" fn h_c08_wide() {
    let scale = 3 + choose(3, "scale") as u32;
    let nd = choose(4, "digits") as u32;
    round_case(30, scale, nd);
}
#[no_mangle]
pub extern "C" fn h_c08_one() {
    // Many decimals, small mantissa.
    let scale = 1 + choose(12, "scale") as u32;
    let nd = choose(13, "digits") as u32;
    round_case(14, scale, nd);
}
