//! C01 operators on expressions, C04 expand, C05 paren, C06 subst.
use crate::common::*;
use doctor_syn::*;
use symrt::*;
use syn::Expr;

/// Atoms that are neither literals nor plain variables.
fn special(k: u64, v: &str, w: &str) -> A {
    match k {
        0 => A::Meth(Box::new(id(v)), "sin", vec![]),
        1 => A::Call("g", vec![id(v), id(w)]),
        2 => A::Bin(4, Box::new(id(v)), Box::new(id(w))),
        3 => A::Cast(Box::new(id(v)), "T"),
        4 => A::Field(Box::new(id(v)), "q"),
        5 => A::Not(Box::new(id(v))),
        6 => A::Bin(12, Box::new(id(v)), Box::new(id(w))),
        7 => A::Bin(3, Box::new(id(v)), Box::new(id(w))),
        8 => A::Meth(Box::new(A::Bin(0, Box::new(id(v)), Box::new(id(w)))), "m", vec![A::Bin(1, Box::new(id(w)), Box::new(id(v)))]),
        _ => A::Bin(7, Box::new(id(v)), Box::new(id(w))),
    }
}

const VARS: &[&str] = &["x", "y", "z", "u", "v", "w"];

/// A tree with at most `ops` operators taken from `set` (18 is unary minus, 19 is `!`).
/// One atom may be special. Redundant parentheses are added where `pars` allows.
struct G {
    set: &'static [u8],
    leaf: usize,
    specials: u64,
    special_left: u32,
    lits_left: u32,
    pars_left: u32,
    names: u64,
}
impl G {
    fn atom(&mut self) -> A {
        let i = self.leaf;
        self.leaf += 1;
        let v = VARS[match self.names { 0 => i % 6, 1 => 0, _ => i % 2 }];
        let kinds = 1 + (self.lits_left > 0) as u64 + if self.special_left > 0 { self.specials } else { 0 };
        let k = choose(kinds, "atom");
        if k == 0 {
            return id(v);
        }
        let k = k - 1;
        if self.lits_left > 0 && k == 0 {
            self.lits_left -= 1;
            return A::Num([&b"2.5"[..], b"1", b"0"][choose(3, "literal") as usize].to_vec());
        }
        let k = k - (self.lits_left > 0) as u64;
        self.special_left -= 1;
        special(k, v, VARS[(i + 1) % 6])
    }
    fn wrap(&mut self, a: A) -> A {
        if self.pars_left > 0 {
            let k = choose(1 + self.pars_left.min(2) as u64, "pars");
            self.pars_left -= k as u32;
            let mut a = a;
            for _ in 0..k {
                a = par(a);
            }
            return a;
        }
        a
    }
    /// Exactly `n` operators.
    fn tree(&mut self, n: u32) -> A {
        let a = if n == 0 {
            self.atom()
        } else {
            let op = self.set[choose(self.set.len() as u64, "op") as usize];
            if op >= 18 {
                let x = self.tree(n - 1);
                if op == 18 {
                    A::Neg(Box::new(x))
                } else {
                    A::Not(Box::new(x))
                }
            } else {
                let l = choose(n as u64, "split") as u32;
                let x = self.tree(l);
                let y = self.tree(n - 1 - l);
                A::Bin(op, Box::new(x), Box::new(y))
            }
        };
        if n == 0 {
            a
        } else {
            self.wrap(a)
        }
    }
}

fn expand_case(a: A) {
    let a = fix(a);
    let e: Expression = parse(&a).into();
    note(&text(&a));
    nopanic(Some("expand: no panic"));
    let r = e.expand();
    nopanic(None);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            // Only a top-level expression outside the sum/product language may be refused.
            let top = matches!(astrip(&a), A::Bin(..) | A::Neg(..) | A::Id(..) | A::Num(..));
            check(!top, "expand: succeeds on sums, products and negations");
            return;
        }
    };
    let s = r.to_string();
    note(&s);
    reach("expanded");
    Rg::assert_eq(ring(e.as_ref()), ring(r.as_ref()), "expand: the tree keeps the value");
    let back = syn::parse_str::<Expr>(&s);
    check(back.is_ok(), "expand: the printed result parses");
    if let Ok(b) = back {
        Rg::assert_eq(ring(e.as_ref()), ring(&b), "expand: the printed result keeps the value");
        check(!has_sum_inside(&b), "expand: the printed result is a sum of products");
    }
    check(!has_sum_inside(r.as_ref()), "expand: no product or negation of a sum");
    check(!sub_of_sum(r.as_ref()), "expand: no subtraction of a sum");
}
const RING: &[u8] = &[0, 1, 2, 18];
#[no_mangle]
pub extern "C" fn h_c04_small() {
    let n = choose(3, "operators") as u32;
    let mut g = G { set: RING, leaf: 0, specials: 10, special_left: 1, lits_left: 1, pars_left: 2, names: 0 };
    expand_case(g.tree(n));
}
#[no_mangle]
pub extern "C" fn h_c04_three() {
    let mut g = G { set: RING, leaf: 0, specials: 0, special_left: 0, lits_left: 0, pars_left: 1, names: choose(3, "names") };
    expand_case(g.tree(3));
}
/// Expanding reaches into parentheses, receivers, arguments and field accesses.
#[no_mangle]
pub extern "C" fn h_c04_ctx() {
    let mut g = G { set: RING, leaf: 0, specials: 0, special_left: 0, lits_left: 0, pars_left: 1, names: 0 };
    let n = 1 + choose(2, "operators") as u32;
    let a = g.tree(n);
    let b = Box::new;
    let (sub, whole) = match choose(6, "context") {
        0 => (false, par(par(a))),
        1 => (true, A::Meth(b(a), "m", vec![])),
        2 => (true, A::Meth(b(id("p")), "m", vec![id("q"), a])),
        3 => (true, A::Meth(b(id("p")), "m", vec![a, id("q")])),
        4 => (true, A::Field(b(a), "f")),
        _ => (false, par(A::Neg(b(par(a))))),
    };
    let whole = fix(whole);
    let e: Expression = parse(&whole).into();
    note(&text(&whole));
    nopanic(Some("expand: no panic"));
    let r = e.expand();
    nopanic(None);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "expand: succeeds");
            return;
        }
    };
    let s = r.to_string();
    note(&s);
    reach("expanded");
    Rg::assert_eq(ring(e.as_ref()), ring(r.as_ref()), "expand: the tree keeps the value");
    match syn::parse_str::<Expr>(&s) {
        Ok(b) => {
            Rg::assert_eq(ring(e.as_ref()), ring(&b), "expand: the printed result keeps the value");
            check(sub || !has_sum_inside(&b), "expand: the printed result is a sum of products");
        }
        Err(_) => check(false, "expand: the printed result parses"),
    }
}
#[no_mangle]
pub extern "C" fn h_c04_three_special() {
    let mut g = G { set: RING, leaf: 0, specials: 10, special_left: 1, lits_left: 0, pars_left: 0, names: 0 };
    expand_case(g.tree(3));
}
#[no_mangle]
pub extern "C" fn h_c04_four() {
    let mut g = G { set: RING, leaf: 0, specials: 0, special_left: 0, lits_left: 0, pars_left: 0, names: 0 };
    expand_case(g.tree(4));
}
#[no_mangle]
pub extern "C" fn h_c04_five() {
    let mut g = G { set: RING, leaf: 0, specials: 0, special_left: 0, lits_left: 0, pars_left: 0, names: 0 };
    expand_case(g.tree(5));
}

fn compound(e: &Expr) -> bool {
    matches!(e, Expr::Binary(_) | Expr::Unary(_))
}
/// Every operator's operand that is an operator application is enclosed in parentheses.
fn explicit(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => explicit(&p.expr),
        Expr::Group(p) => explicit(&p.expr),
        Expr::Unary(u) => !compound(&u.expr) && explicit(&u.expr),
        Expr::Binary(b) => !compound(&b.left) && !compound(&b.right) && explicit(&b.left) && explicit(&b.right),
        Expr::MethodCall(m) => explicit(&m.receiver) && m.args.iter().all(explicit),
        Expr::Field(f) => explicit(&f.base),
        _ => true,
    }
}
fn paren_case(a: A) {
    let a = fix(a);
    let e: Expression = parse(&a).into();
    note(&text(&a));
    nopanic(Some("paren: no panic"));
    let before = printed();
    let r = e.paren();
    check(printed() == before, "paren: nothing is written to standard output");
    nopanic(None);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "paren: succeeds on operators, calls and names");
            return;
        }
    };
    let s = r.to_string();
    note(&s);
    reach("parenthesised");
    check(same(r.as_ref(), &a, false), "paren: same structure");
    check(explicit(r.as_ref()), "paren: operands are enclosed");
    match syn::parse_str::<Expr>(&s) {
        Ok(b) => {
            check(same(&b, &a, false), "paren: the printed result has the same structure");
            check(explicit(&b), "paren: the printed result is explicit");
        }
        Err(_) => check(false, "paren: the printed result parses"),
    }
    match r.paren() {
        Ok(q) => check(q == r, "paren: applying it twice changes nothing"),
        Err(_) => check(false, "paren: can be applied twice"),
    }
}
const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
const SOME: &[u8] = &[1, 2, 4, 5, 7, 12, 16, 18];
fn gen_with(set: &'static [u8], n: u32, pars: u32, special: bool) -> A {
    let mut g = G { set, leaf: 0, specials: 0, special_left: 0, lits_left: 0, pars_left: pars, names: 0 };
    let mut a = g.tree(n);
    if special {
        a = match choose(5, "context") {
            0 => A::Meth(Box::new(a), "abs", vec![]),
            1 => A::Meth(Box::new(id("p")), "mul_add", vec![a, id("q")]),
            2 => A::Meth(Box::new(id("p")), "powi", vec![id("q"), a]),
            3 => A::Field(Box::new(a), "f"),
            _ => A::Bin(1, Box::new(A::Meth(Box::new(a.clone()), "m", vec![a])), Box::new(A::Num(b"1".to_vec()))),
        };
    }
    a
}
#[no_mangle]
pub extern "C" fn h_c05_two() {
    let n = choose(3, "operators") as u32;
    paren_case(gen_with(ALL, n, 1, false));
}
#[no_mangle]
pub extern "C" fn h_c05_three() {
    paren_case(gen_with(SOME, 3, 0, false));
}
#[no_mangle]
pub extern "C" fn h_c05_context() {
    paren_case(gen_with(SOME, 2, 1, true));
}
#[no_mangle]
pub extern "C" fn h_c05_names() {
    // Symbolic identifiers and digits.
    let x = letter(b'a', b'z', "name");
    let y = letter(b'a', b'z', "name");
    let d = digit("digit");
    let op1 = choose(18, "op") as u8;
    let l = A::Bin(op1, Box::new(A::Id(vec![x])), Box::new(A::Num(vec![d])));
    let a = match choose(3, "shape") {
        0 => A::Bin(1, Box::new(l), Box::new(A::Id(vec![y]))),
        1 => A::Bin(2, Box::new(A::Id(vec![y])), Box::new(l)),
        _ => A::Neg(Box::new(l)),
    };
    paren_case(a);
}
#[no_mangle]
pub extern "C" fn h_c05_four() {
    paren_case(gen_with(SOME, 4, 0, false));
}

// ---- C01 ----
fn op_case(op: u64, l: &A, r: &A) {
    let (a, b): (Expression, Expression) = (parse(l).into(), parse(r).into());
    let (ra, rb) = (ring(a.as_ref()), ring(b.as_ref()));
    nopanic(Some("operator: no panic"));
    let (c, want) = match op {
        0 => (a + b, Rg::bin(b'+', ra, rb)),
        1 => (a - b, Rg::bin(b'-', ra, rb)),
        2 => (a * b, Rg::bin(b'*', ra, rb)),
        _ => (a / b, Rg::uf("op /", &[ra, rb])),
    };
    let s = c.to_string();
    nopanic(None);
    note(&s);
    reach("combined");
    Rg::assert_eq(want, ring(c.as_ref()), "operator: the result denotes the operation");
    match syn::parse_str::<Expr>(&s) {
        Ok(e) => Rg::assert_eq(want, ring(&e), "operator: the printed result denotes the operation"),
        Err(_) => check(false, "operator: the printed result parses"),
    }
}
fn operand(first: bool) -> A {
    let (p, q) = if first { ("x", "y") } else { ("u", "v") };
    let b = |op: u8| A::Bin(op, Box::new(id(p)), Box::new(id(q)));
    fix(match choose(16, "operand") {
        0 => id(p),
        1 => b(0),
        2 => b(1),
        3 => b(2),
        4 => b(3),
        5 => b(4),
        6 => b(5),
        7 => b(12),
        8 => b(16),
        9 => A::Neg(Box::new(id(p))),
        10 => A::Neg(Box::new(b(0))),
        11 => A::Meth(Box::new(id(p)), "m", vec![id(q)]),
        12 => A::Cast(Box::new(id(p)), "T"),
        13 => par(b(1)),
        14 => A::Num(b"\"s\"".to_vec()),
        _ => A::Num(b"7.5".to_vec()),
    })
}
#[no_mangle]
pub extern "C" fn h_c01_symbolic() {
    let op = choose(4, "operation");
    let l = operand(true);
    let r = operand(false);
    let n = |a: &A| matches!(a, A::Num(t) if t[0] != b'"');
    assume(!(n(&l) && n(&r)));
    op_case(op, &l, &r);
}
fn literal(shape: u64, tag: &str) -> (A, i64, u32) {
    let d = |i: u32| digit(&format!("{}{}", tag, i));
    let v = |b: u8| (b - b'0') as i64;
    match shape {
        0 => {
            let a = d(0);
            (A::Num(vec![a]), v(a), 0)
        }
        1 => {
            let (a, b) = (d(0), d(1));
            (A::Num(vec![a, b]), v(a) * 10 + v(b), 0)
        }
        2 => {
            let (a, b) = (d(0), d(1));
            (A::Num(vec![a, b'.', b]), v(a) * 10 + v(b), 1)
        }
        3 => {
            let (a, b) = (d(0), d(1));
            (A::Num(vec![b'0', b'.', a, b]), v(a) * 10 + v(b), 2)
        }
        _ => {
            let (a, b, c) = (d(0), d(1), d(2));
            (A::Num(vec![a, b, b'.', c]), v(a) * 100 + v(b) * 10 + v(c), 1)
        }
    }
}
fn numeric(op: u64, l: (A, i64, u32), r: (A, i64, u32)) {
    let (a, b): (Expression, Expression) = (parse(&l.0).into(), parse(&r.0).into());
    nopanic(Some("operator: no panic"));
    let c = match op {
        0 => a + b,
        1 => a - b,
        _ => a * b,
    };
    let s = c.to_string();
    nopanic(None);
    note(&s);
    reach("computed");
    check(c.is_numeric(), "operator: numbers combine to a numeric literal");
    let (neg, m, d) = match decimal(&s) {
        Some(x) => x,
        None => {
            check(false, "operator: the literal is a decimal number");
            return;
        }
    };
    let m = if neg { -m } else { m };
    let k = l.2.max(r.2);
    let (x, y) = (l.1 * p10(k - l.2), r.1 * p10(k - r.2)); // in units of 10^-k
    let (want, wd) = match op {
        0 => (x + y, k),
        1 => (x - y, k),
        _ => (l.1 * r.1, l.2 + r.2),
    };
    assume(d <= 16);
    check(m * p10(wd.max(d) - d) == want * p10(wd.max(d) - wd), "operator: the literal has exactly the decimal value");
}
#[no_mangle]
pub extern "C" fn h_c01_numeric() {
    let op = choose(3, "operation");
    let l = literal(choose(4, "left"), "l");
    let r = literal(choose(4, "right"), "r");
    numeric(op, l, r);
}
#[no_mangle]
pub extern "C" fn h_c01_numeric3() {
    let op = choose(3, "operation");
    let l = literal(4, "l");
    let r = literal(choose(4, "right"), "r");
    numeric(op, l, r);
}
/// Literals beyond the precision of a double.
#[no_mangle]
pub extern "C" fn h_c01_long() {
    let op = choose(2, "operation");
    let long = |tag: &str| {
        let (a, b) = (digit(tag), b'7');
        let v = |b: u8| (b - b'0') as i64;
        match choose(3, "long") {
            0 => (A::Num([b"90071992547409", &[a, b][..]].concat()), 9007199254740900 + 10 * v(a) + v(b), 0),
            1 => (A::Num([b"40000000000001.0", &[a, b][..]].concat()), 40000000000001000 + 10 * v(a) + v(b), 3),
            _ => (A::Num([b"0.000000000070", &[a, b][..]].concat()), 7000 + 10 * v(a) + v(b), 14),
        }
    };
    let l = long("l");
    let r = if choose(2, "right") == 0 { literal(2, "r") } else { long("r") };
    // Everything is exact in units of 10^-14 only for the short forms.
    let k = l.2.max(r.2);
    assume(!(k > 3 && (l.2 < 14 && l.1 > 1000 || r.2 < 14 && r.1 > 1000)));
    let (l, r) = if choose(2, "swap") == 0 { (l, r) } else { (r, l) };
    numeric(op, l, r);
}
/// Exponents, other bases, separators and suffixes.
#[no_mangle]
pub extern "C" fn h_c01_form() {
    let op = choose(3, "operation");
    let form = |tag: &str| {
        let d = digit(tag);
        let v = (d - b'0') as i64;
        match choose(6, "form") {
            0 => (A::Num([b"1", &[d][..], b"e2"].concat()), (10 + v) * 100, 0),
            1 => (A::Num([&[d][..], b".5e-2"].concat()), v * 10 + 5, 3),
            2 => (A::Num([b"0x1", &[d][..]].concat()), 16 + v, 0),
            3 => (A::Num([b"1_", &[d][..], b"00"].concat()), 1000 + v * 100, 0),
            4 => (A::Num([b"0.", &[d][..], b"f32"].concat()), v, 1),
            _ => (A::Num([&[d][..], b"u8"].concat()), v, 0),
        }
    };
    let l = form("l");
    let r = if choose(2, "right") == 0 { literal(2, "r") } else { form("r") };
    numeric(op, l, r);
}
/// The result of one operation, which may be negative, is an operand of the next.
#[no_mangle]
pub extern "C" fn h_c01_chain() {
    let v = |b: u8| (b - b'0') as i64;
    let (x, y, z) = (digit("x"), digit("y"), digit("z"));
    let e = |d: u8| -> Expression { parse(&A::Num(vec![d])).into() };
    nopanic(Some("operator: no panic"));
    let t = e(x) - e(y);
    let op = choose(3, "operation");
    let (r, want) = match op {
        0 => (t + e(z), v(x) - v(y) + v(z)),
        1 => (e(z) - t, v(z) - (v(x) - v(y))),
        _ => (t * e(z), (v(x) - v(y)) * v(z)),
    };
    let s = r.to_string();
    nopanic(None);
    note(&s);
    reach("computed");
    check(r.is_numeric(), "operator: numbers combine to a numeric literal");
    match decimal(&s) {
        Some((neg, m, d)) => {
            assume(d <= 8);
            check((if neg { -m } else { m }) == want * p10(d), "operator: the literal has exactly the decimal value")
        }
        None => check(false, "operator: the literal is a decimal number"),
    }
}
#[no_mangle]
pub extern "C" fn h_c01_divide() {
    // Quotients by divisors of a power of ten are finite decimals.
    let b = [1u8, 2, 4, 5, 8][choose(5, "divisor") as usize];
    let l = literal(choose(3, "left"), "l");
    let a: Expression = parse(&l.0).into();
    let e: Expression = parse(&A::Num(vec![b'0' + b])).into();
    nopanic(Some("operator: no panic"));
    let c = a / e;
    let s = c.to_string();
    nopanic(None);
    note(&s);
    reach("divided");
    check(c.is_numeric(), "operator: numbers combine to a numeric literal");
    if let Some((neg, m, d)) = decimal(&s) {
        assume(d <= 8);
        let m = if neg { -m } else { m };
        let k = d.max(l.2);
        check(m * p10(k - d) * b as i64 == l.1 * p10(k - l.2), "operator: the literal has exactly the decimal value");
    } else {
        check(false, "operator: the literal is a decimal number");
    }
}

// ---- C06 ----
/// Names are symbolic single letters (or two letters), so that equal and different names are both covered.
fn name_sym(tag: &str) -> A {
    A::Id(vec![letter(b's', b'z', tag)])
}
fn subst_oracle(a: &A, binds: &[(Vec<u8>, A)]) -> A {
    let go = |x: &A| Box::new(subst_oracle(x, binds));
    let gov = |v: &[A]| v.iter().map(|x| subst_oracle(x, binds)).collect::<Vec<_>>();
    match a {
        A::Id(t) => {
            for (n, e) in binds {
                if eqb(n, t) {
                    return e.clone();
                }
            }
            a.clone()
        }
        A::Num(_) => a.clone(),
        A::Neg(x) => A::Neg(go(x)),
        A::Not(x) => A::Not(go(x)),
        A::Bin(o, l, r) => A::Bin(*o, go(l), go(r)),
        A::Par(x) => A::Par(go(x)),
        A::Meth(r, n, v) => A::Meth(go(r), n, gov(v)),
        A::Call(n, v) => A::Call(n, gov(v)),
        A::Field(x, n) => A::Field(go(x), n),
        A::Cast(x, t) => A::Cast(go(x), t),
    }
}
fn bound(k: u64, n: &A) -> A {
    match k {
        0 => A::Num(vec![b'4', digit("bound")]),
        1 => A::Bin(0, Box::new(n.clone()), Box::new(A::Num(b"1".to_vec()))),
        2 => name_sym("bound"),
        _ => A::Meth(Box::new(A::Neg(Box::new(name_sym("bound")))), "f", vec![n.clone()]),
    }
}
fn subst_case(e: A, binds: Vec<(A, A)>) {
    let e = fix(e);
    note(&text(&e));
    let ex: Expression = parse(&e).into();
    let mut vars = VariableList::new();
    let mut o = Vec::new();
    for (n, v) in binds {
        let v = fix(v);
        let t = match &n {
            A::Id(t) => t.clone(),
            _ => unreachable!(),
        };
        let p: syn::Path = syn::parse_str(&text(&n)).unwrap();
        vars.add_var(Name::from(p), parse(&v).into());
        o.push((t, v));
    }
    nopanic(Some("subst: no panic"));
    let r = ex.subst(vars);
    nopanic(None);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "subst: succeeds");
            return;
        }
    };
    note(&r.to_string());
    reach("substituted");
    let want = subst_oracle(&e, &o);
    // Parentheses of the original are part of the rest of the tree; around inserted text they are free.
    check(same(r.as_ref(), &want, false), "subst: exactly the named variables are replaced");
}
fn shape(k: u64) -> A {
    let (x, y) = (name_sym("name"), name_sym("name"));
    let b = Box::new;
    match k {
        0 => x,
        1 => A::Bin(0, b(x), b(y)),
        2 => A::Bin(2, b(A::Neg(b(x))), b(par(A::Bin(1, b(y), b(A::Num(b"3".to_vec())))))),
        3 => A::Meth(b(x), "mul_add", vec![y, name_sym("name")]),
        4 => A::Meth(b(A::Field(b(x.clone()), "x")), "a", vec![y, x]),
        5 => A::Bin(1, b(A::Bin(3, b(x.clone()), b(y.clone()))), b(A::Bin(4, b(y), b(x)))),
        6 => A::Meth(b(A::Meth(b(x), "x", vec![])), "y", vec![A::Not(b(y))]),
        7 => A::Bin(0, b(A::Id(match (x, 0) { (A::Id(mut t), _) => { t.extend_from_slice(b"::k"); t } _ => unreachable!() })), b(y)),
        8 => A::Bin(0, b(A::Id(match (x, 0) { (A::Id(mut t), _) => { t.push(b'1'); t } _ => unreachable!() })), b(y)),
        9 => A::Meth(b(A::Num(b"1.5".to_vec())), "f", vec![par(x), y]),
        10 => A::Bin(2, b(path(b"k::", x, b"")), b(y)),
        11 => A::Bin(2, b(path(b"::", x, b"")), b(y)),
        12 => A::Bin(2, b(path(b"", x, b"::<T>")), b(y)),
        13 => A::Meth(b(path(b"k::k::", x, b"")), "x", vec![path(b"", y, b"x")]),
        14 => A::Bin(0, b(A::Num(b"\"x\"".to_vec())), b(x)),
        _ => A::Bin(1, b(A::Bin(1, b(x.clone()), b(A::Bin(2, b(y.clone()), b(x.clone()))))), b(A::Neg(b(A::Bin(2, b(y), b(x)))))),
    }
}
fn path(pre: &[u8], x: A, post: &[u8]) -> A {
    match x {
        A::Id(t) => A::Id([pre, &t[..], post].concat()),
        _ => unreachable!(),
    }
}
#[no_mangle]
pub extern "C" fn h_c06_one() {
    let e = shape(choose(16, "shape"));
    let n = name_sym("variable");
    let n = match choose(4, "bound name") {
        0 | 3 => n,
        1 => path(b"k::", n, b""),
        _ => path(b"", n, b"x"),
    };
    let v = bound(choose(4, "value"), &n);
    subst_case(e, vec![(n, v)]);
}
#[no_mangle]
pub extern "C" fn h_c06_two() {
    let e = shape(choose(6, "shape"));
    let (n, m) = (name_sym("variable"), name_sym("variable"));
    // The first value may mention the second variable and the other way round.
    let v = match choose(2, "value") {
        0 => A::Bin(0, Box::new(m.clone()), Box::new(A::Num(b"1".to_vec()))),
        _ => m.clone(),
    };
    let w = match choose(2, "value") {
        0 => A::Bin(1, Box::new(n.clone()), Box::new(A::Num(b"2".to_vec()))),
        _ => A::Num(b"9".to_vec()),
    };
    subst_case(e, vec![(n, v), (m, w)]);
}
#[no_mangle]
pub extern "C" fn h_c06_find() {
    let n = choose(4, "size");
    let mut vars = VariableList::new();
    let mut o: Vec<(A, Vec<u8>)> = vec![];
    for i in 0..n {
        let nm = name_sym("variable");
        let val = vec![b'1', b'0' + i as u8];
        let p: syn::Path = syn::parse_str(&text(&nm)).unwrap();
        let at = vars.add_var(Name::from(p), parse(&A::Num(val.clone())).into());
        check(at == i as usize, "variables: add_var returns the position");
        o.push((nm, val));
    }
    let q = name_sym("query");
    let p: syn::Path = syn::parse_str(&text(&q)).unwrap();
    let r = vars.find(&Name::from(p));
    reach("looked up");
    let mut want = None;
    for (nm, v) in &o {
        if text(nm) == text(&q) {
            want = Some(v.clone());
            break;
        }
    }
    match (r, want) {
        (None, None) => {}
        (Some(e), Some(v)) => check(same(e.as_ref(), &A::Num(v), true), "variables: the first binding of the name"),
        _ => check(false, "variables: found exactly when bound"),
    }
}
