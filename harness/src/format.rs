//! C11 formatting of token streams.
use crate::common::*;
use doctor_syn::codegen::rust::format_token_stream;
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use symrt::*;

fn flat(s: &TokenStream) -> Vec<TokenTree> {
    let mut o = vec![];
    for t in s.clone() {
        match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => o.extend(flat(&g.stream())),
            _ => o.push(t),
        }
    }
    o
}
/// Are these the same tokens? Groups without delimiters cannot be written down and count as their contents.
fn same_tokens(a: &TokenStream, b: &TokenStream) -> bool {
    let (a, b) = (flat(a), flat(b));
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        let ok = match (&a[i], &b[i]) {
            (TokenTree::Ident(x), TokenTree::Ident(y)) => eqb(x.to_string().as_bytes(), y.to_string().as_bytes()),
            (TokenTree::Literal(x), TokenTree::Literal(y)) => eqb(x.to_string().as_bytes(), y.to_string().as_bytes()),
            (TokenTree::Punct(x), TokenTree::Punct(y)) => {
                let follows = i + 1 < a.len() && matches!(a[i + 1], TokenTree::Punct(_));
                x.as_char() == y.as_char() && (!follows || (x.spacing() == Spacing::Joint) == (y.spacing() == Spacing::Joint))
            }
            (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter() && same_tokens(&x.stream(), &y.stream()),
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    true
}
fn format_case(s: TokenStream) {
    note(&s.to_string());
    nopanic(Some("format: no panic"));
    let t = format_token_stream(s.clone());
    nopanic(None);
    note(&t);
    match t.parse::<TokenStream>() {
        Ok(r) => {
            reach("read back");
            check(same_tokens(&s, &r), "format: the text reads back as the same tokens");
        }
        Err(_) => check(false, "format: the text can be read back"),
    }
}
fn lex(t: &[u8]) -> TokenStream {
    match unsafe { core::str::from_utf8_unchecked(t) }.parse::<TokenStream>() {
        Ok(s) => s,
        Err(_) => panic!("the generated text is not a token stream"),
    }
}
const OPS2: &[&str] = &["->", "=>", "<<", ">>", "::", "..", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "<-", "|=", "&=", "^=", "%="];
const OPS3: &[&str] = &["<<=", ">>=", "...", "..="];
const NKIND: u64 = 25;
/// One lexical piece, as a stream; the bytes that may vary are symbolic.
fn piece(k: u64) -> TokenStream {
    piece_of(k, false)
}
/// `few`: a handful of operators instead of all of them.
fn piece_of(k: u64, few: bool) -> TokenStream {
    let mut t: Vec<u8> = vec![];
    let s = |t: &mut Vec<u8>, x: &str| t.extend_from_slice(x.as_bytes());
    match k {
        0 => {
            s(&mut t, "x");
            t.push(letter(b'a', b'z', "i"));
        }
        1 => t.push(digit("d")),
        2 => {
            // one punctuation character
            let c = u64_in(b'!' as u64, b'~' as u64, "p") as u8;
            assume(!few || matches!(c, b'-' | b'&' | b'.' | b'/' | b'*' | b';'));
            assume(matches!(c, b'!' | b'#' | b'$' | b'%' | b'&' | b'*' | b'+' | b',' | b'-' | b'.' | b'/' | b':' | b';' | b'<' | b'=' | b'>' | b'?' | b'@' | b'^' | b'|' | b'~'));
            t.push(c);
        }
        3 => {
            t.push(digit("d"));
            s(&mut t, ".");
            t.push(digit("d"));
        }
        4 => {
            t.push(digit("d"));
            s(&mut t, ".");
        }
        5 => {
            t.push(digit("d"));
            s(&mut t, "f32");
        }
        6 if few => s(&mut t, OPS2[2 * choose(5, "op2") as usize]),
        6 => s(&mut t, OPS2[choose(OPS2.len() as u64, "op2") as usize]),
        7 => s(&mut t, "as"),
        8 => {
            s(&mut t, "'");
            t.push(letter(b'a', b'z', "i"));
            s(&mut t, " ");
        }
        9 => s(&mut t, "(x1, -2)"),
        10 => s(&mut t, "{ a = 1; b }"),
        11 => s(&mut t, "[0]"),
        12 => {
            // a group without delimiters
            let inner: &[u8] = match choose(4, "none") {
                0 => b"1",
                1 => b"- 1",
                2 => b"x as f32",
                _ => b"",
            };
            return TokenTree::Group(Group::new(Delimiter::None, lex(inner))).into();
        }
        13 => {
            let c = u64_in(b' ' as u64, b'~' as u64, "c") as u8;
            assume(c != b'"' && c != b'\\');
            s(&mut t, "\"");
            t.push(c);
            s(&mut t, "\"");
        }
        14 => {
            t.push(digit("d"));
            s(&mut t, "e");
            t.push(digit("d"));
        }
        15 => s(&mut t, "r#type"),
        16 => s(&mut t, "_"),
        17 => {
            s(&mut t, "0x");
            t.push(digit("d"));
            s(&mut t, "f");
        }
        18 => s(&mut t, "r#\"a\"b\"#"),
        19 => {
            let c = u64_in(b' ' as u64, b'~' as u64, "c") as u8;
            assume(c != b'\'' && c != b'\\');
            s(&mut t, "'");
            t.push(c);
            s(&mut t, "'");
        }
        20 => s(&mut t, "b'1'"),
        21 => s(&mut t, "b\"12\""),
        22 => s(&mut t, "()"),
        24 => {
            s(&mut t, "\"");
            for _ in 0..3 {
                let c = u64_in(b'\n' as u64, b'}' as u64, "c") as u8;
                assume(matches!(c, b'\n' | b' ' | b';' | b'{' | b'}' | b','));
                t.push(c);
            }
            s(&mut t, "\"");
        }
        _ => s(&mut t, OPS3[choose(OPS3.len() as u64, "op3") as usize]),
    }
    lex(&t)
}
fn wrap(d: Delimiter, s: TokenStream) -> TokenStream {
    TokenTree::Group(Group::new(d, s)).into()
}
fn placed(k: u64, s: TokenStream) -> TokenStream {
    match k {
        0 => s,
        1 => wrap(Delimiter::Brace, s),
        2 => wrap(Delimiter::None, s),
        3 => wrap(Delimiter::Parenthesis, s),
        _ => wrap(Delimiter::Brace, wrap(Delimiter::Bracket, s)),
    }
}
/// A lone `'` is not a token, and two `/` or `/ *` cannot be joined; every other pair can stand next to each other.
#[no_mangle]
pub extern "C" fn h_c11_pairs() {
    let mut s = piece(choose(NKIND, "first"));
    s.extend(piece(choose(NKIND, "second")));
    format_case(placed(choose(5, "place"), s));
}
#[no_mangle]
pub extern "C" fn h_c11_triples() {
    let mut s = piece_of(choose(9, "first"), true);
    s.extend(piece_of(choose(9, "second"), true));
    s.extend(piece_of(choose(9, "third"), true));
    format_case(placed([0, 1, 3][choose(3, "place") as usize], s));
}
#[no_mangle]
pub extern "C" fn h_c11_triples_all() {
    let mut s = piece_of(choose(NKIND, "first"), true);
    s.extend(piece(choose(NKIND, "second")));
    s.extend(piece_of(choose(NKIND, "third"), true));
    format_case(s);
}
/// Braces nested to any depth up to 70, with tokens before, inside and after.
#[no_mangle]
pub extern "C" fn h_c11_deep() {
    let depth = choose(71, "depth");
    let other = choose(3, "other");
    let mut s = piece_of(choose(5, "inside"), true);
    for i in 0..depth {
        if i == depth / 2 && other == 1 {
            s = wrap(Delimiter::Parenthesis, s);
        }
        if i == depth / 2 && other == 2 {
            s = wrap(Delimiter::None, s);
        }
        let mut o = lex(b"if x ");
        o.extend(wrap(Delimiter::Brace, s));
        o.extend(lex(b"else 3"));
        s = o;
    }
    format_case(s);
}
/// Whole items, with symbolic names, numbers and operators inside.
#[no_mangle]
pub extern "C" fn h_c11_items() {
    let t: &[&str] = &[
        "fn f(x: f32) -> f32 { let y = ? as f32; y / *x }",
        "fn f(x: &'static [f32]) -> &'a u8 { & & x; x < - ?; x < <f32>::MAX; a & &b }",
        "/// words\n#[inline(always)] pub fn g<T: Fn(f32) -> f32, const N: usize>(x: T) -> [f32; ?] { x.0 .1; 1. .sqrt(); -1.5f32.mul_add(? as f32, x) }",
        "const A: f32 = ?e-3; static B: &[u8] = b\"?\"; use core::f32::consts::*; use a as b;",
        "fn h() { if x >= ? { 1 } else if !(x == -0.0) { 2.0 } else { loop { break 'a ? } } ; match x { 0..=? => 1, ? | 3 => { 2 } _ => () } }",
        "#![no_std] mod m { pub(crate) struct S { pub x: f32, y: [u32; ?] } impl S { fn k(&self) -> u32 { self.y[?] >> 3 as u32 << 1 } } }",
        "macro_rules! m { ($x:expr, $($y:tt)*) => { $x + m!($($y)*) }; } x = ||? ; y = |a| a ? ; z = a..? ; w = ..=? ;",
        "let t = (1,? ); t.0.1; ?.0; ? .max(1); a ? .b; &mut *p; **q; a = - - ?; b = !!c; d = ! - 1;",
    ];
    let k = choose(t.len() as u64, "item") as usize;
    let b: Vec<u8> = t[k].bytes().map(|c| if c == b'?' { digit("d") } else { c }).collect();
    let s = lex(&b);
    format_case(placed(choose(5, "place"), s));
}
