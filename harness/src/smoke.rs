use doctor_syn::*;
use symrt::*;
#[no_mangle]
pub extern "C" fn h_smoke_expand() {
    let n = choose(3, "shape");
    let e = match n {
        0 => expr!(x + 1),
        1 => expr!(x * (y - 1)),
        _ => expr!(-(x * (z + 1))),
    };
    let r = e.expand().unwrap();
    note(&r.to_string());
    check(r.to_string().len() > 7, "len");
}
#[no_mangle]
pub extern "C" fn h_smoke_eval() {
    let s = b"0123456789+-*/";
    let mut t = [b'1', b'+', b'2', b'*', b'3'];
    let c = u64_in(b'0' as u64, b'9' as u64, "d") as u8;
    t[2] = c;
    let _ = s;
    let st = unsafe { std::str::from_utf8_unchecked(&t) };
    let e: Expression = st.parse().unwrap();
    let r = e.eval(20).unwrap();
    note(&r.to_string());
    let v: f64 = 1.0;
    let _ = v;
    reach("end");
    check(r.to_string().len() < 2, "len");
}
