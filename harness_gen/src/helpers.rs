//! C17: bit-level helpers, for every bit pattern of their arguments.

macro_rules! width {
    ($m:ident, $f:ty, $u:ty, $i:ty, $mant:expr, $round:ident, $negate:ident, $nextafter:ident, $runif:ident, $scaled:ident) => {
        pub mod $m {
            use super::super::$m as lib;
            use symrt::*;
            const BITS: u32 = <$u>::BITS;
            const MANT: u32 = $mant;
            const SIGN: $u = 1 << (BITS - 1);
            const INF: $u = (<$u>::MAX >> 1) & !((1 << MANT) - 1);
            const BIAS: $u = (1 << (BITS - 2 - MANT)) - 1;

            fn any(tag: &str) -> $u {
                u64_in(0, <$u>::MAX as u64, tag) as $u
            }

            /// The magnitude of a finite value rounded to an integer, half away from zero, as bits: integer arithmetic only.
            fn rounded(m: $u) -> $u {
                let e = m >> MANT;
                if e >= BIAS + MANT as $u {
                    return m; // no fraction
                }
                if e < BIAS - 1 {
                    return 0;
                }
                if e == BIAS - 1 {
                    return BIAS << MANT; // at least one half: one
                }
                let s = MANT as $u - (e - BIAS); // fraction bits
                let half: $u = 1 << (s - 1);
                // a carry out of the significand goes to the exponent, as it should
                ((m + half) >> s) << s
            }

            pub fn round() {
                let b = any("x");
                nopanic(Some("round panics"));
                let r = lib::round(<$f>::from_bits(b)).to_bits();
                nopanic(None);
                let m = b & !SIGN;
                if m > INF {
                    check(r & !SIGN > INF, "round of NaN is not NaN");
                } else {
                    let want = rounded(m);
                    check(r & !SIGN == want, "round does not give the nearest integer");
                    check(want == 0 || r & SIGN == b & SIGN, "round changes the sign");
                }
            }

            /// Whether the integer part of a value is odd.
            fn odd(b: $u) -> bool {
                let e = (b & !SIGN) >> MANT;
                if e < BIAS || e > BIAS + MANT as $u {
                    return false;
                }
                let s = MANT as $u - (e - BIAS);
                (((b & ((1 << MANT) - 1)) | (1 << MANT)) >> s) & 1 == 1
            }

            pub fn negate() {
                let (a, b) = (any("x"), any("y"));
                nopanic(Some("negate_on_odd panics"));
                let r = lib::negate_on_odd(<$f>::from_bits(a), <$f>::from_bits(b)).to_bits();
                nopanic(None);
                let m = b & !SIGN;
                if m > INF {
                    check(r & !SIGN > INF, "negate_on_odd of NaN is not NaN");
                } else {
                    let flip = if odd(a) { SIGN } else { 0 };
                    check(r == b ^ flip, "negate_on_odd flips the sign at the wrong time");
                }
            }

            pub fn nextafter() {
                let b = any("x");
                nopanic(Some("nextafter panics"));
                let r = lib::nextafter(<$f>::from_bits(b)).to_bits();
                nopanic(None);
                let m = b & !SIGN;
                if m > INF {
                    check(r & !SIGN > INF, "nextafter of NaN is not NaN");
                } else if b == INF {
                    check(r == INF, "nextafter of infinity");
                } else if m == 0 {
                    check(r == 1, "nextafter of zero is not the smallest positive value");
                } else if b & SIGN == 0 {
                    check(r == b + 1, "nextafter of a positive value");
                } else {
                    // -0.0 and 0.0 are the same value
                    check(r == b - 1 || (b == SIGN + 1 && r == 0), "nextafter of a negative value");
                }
            }

            pub fn runif() {
                let i = u64_in(0, u64::MAX, "index") as usize;
                nopanic(Some("runif panics"));
                let x = lib::runif(i, 0.0, 1.0);
                nopanic(None);
                check(x >= 0.0 && x < 1.0, "runif(i, 0, 1) outside [0, 1)");
            }

            pub fn runif_scaled() {
                let i = u64_in(0, u64::MAX, "index") as usize;
                let (lo, hi) = (<$f>::from_bits(any("min")), <$f>::from_bits(any("max")));
                nopanic(Some("runif panics"));
                let x = lib::runif(i, 0.0, 1.0);
                let y = lib::runif(i, lo, hi);
                nopanic(None);
                let want = x * (hi - lo) + lo;
                check(y == want || (y != y && want != want), "runif(i, min, max) is not runif(i, 0, 1) scaled and shifted");
            }
        }
        #[no_mangle]
        pub extern "C" fn $round() {
            $m::round()
        }
        #[no_mangle]
        pub extern "C" fn $negate() {
            $m::negate()
        }
        #[no_mangle]
        pub extern "C" fn $nextafter() {
            $m::nextafter()
        }
        #[no_mangle]
        pub extern "C" fn $runif() {
            $m::runif()
        }
        #[no_mangle]
        pub extern "C" fn $scaled() {
            $m::runif_scaled()
        }
    };
}

width!(lib32, f32, u32, i32, 23, h_c17_round32, h_c17_negate32, h_c17_nextafter32, h_c17_runif32, h_c17_scaled32);
width!(lib64, f64, u64, i64, 52, h_c17_round64, h_c17_negate64, h_c17_nextafter64, h_c17_runif64, h_c17_scaled64);
