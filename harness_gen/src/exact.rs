//! C16: exact and exceptional arguments of the generated functions.

macro_rules! width {
    ($m:ident, $f:ty, $u:ty, $i:ty, $mant:expr, $($name:ident = $body:ident),* $(,)?) => {
        pub mod $m {
            use super::super::$m as lib;
            use symrt::*;
            const BITS: u32 = <$u>::BITS;
            const MANT: u32 = $mant;
            const INF: $f = <$f>::INFINITY;
            const LARGE: $f = if BITS == 32 { 105.0 } else { 750.0 };
            const BIAS: i64 = (1 << (BITS - 2 - MANT)) - 1;

            fn any(tag: &str) -> $f {
                <$f>::from_bits(u64_in(0, <$u>::MAX as u64, tag) as $u)
            }
            /// An exponent of a normal number.
            fn exponent() -> i64 {
                u64_in(0, 2 * BIAS as u64 - 1, "exponent") as i64 - (BIAS - 1)
            }
            fn power(n: i64) -> $f {
                <$f>::from_bits(((n + BIAS) as $u) << MANT)
            }

            pub fn exp2_integers() {
                let n = exponent();
                nopanic(Some("exp2 panics"));
                let y = lib::exp2(n as $f);
                nopanic(None);
                check(y.to_bits() == power(n).to_bits(), "exp2 of an integer is not that power of two");
            }
            pub fn exp2_above() {
                let x = any("x");
                assume(x > BIAS as $f);
                nopanic(Some("exp2 panics"));
                let y = lib::exp2(x);
                nopanic(None);
                check(y == INF, "exp2 above the largest exponent is not infinity");
            }
            pub fn exp2_below() {
                let x = any("x");
                assume(x <= -(BIAS as $f) - 1.0);
                nopanic(Some("exp2 panics"));
                let y = lib::exp2(x);
                nopanic(None);
                check(y == 0.0, "exp2 far below the smallest exponent is not zero");
            }
            pub fn log2_powers() {
                let n = exponent();
                nopanic(Some("log2 panics"));
                let y = lib::log2(power(n));
                nopanic(None);
                check(y == n as $f, "log2 of a power of two is not its exponent");
            }
            pub fn logs() {
                let x = any("x");
                assume(x == 0.0 || x < 0.0 || x == INF || x != x);
                nopanic(Some("a logarithm panics"));
                let y = [lib::log2(x), lib::ln(x), lib::log10(x)];
                nopanic(None);
                for y in y {
                    if x == 0.0 {
                        check(y == -INF, "the logarithm of zero is not minus infinity");
                    } else if x < 0.0 {
                        check(y != y, "the logarithm of a negative number is not NaN");
                    } else if x != x {
                        check(y != y, "the logarithm of NaN is not NaN");
                    } else {
                        check(y == INF, "the logarithm of infinity is not infinity");
                    }
                }
            }
            pub fn arcs() {
                let x = any("x");
                assume(x > 1.0 || x < -1.0);
                nopanic(Some("asin or acos panics"));
                let y = lib::asin(x);
                let z = lib::acos(x);
                nopanic(None);
                check(y != y, "asin outside its domain is not NaN");
                check(z != z, "acos outside its domain is not NaN");
            }
            pub fn areas() {
                let x = any("x");
                nopanic(Some("acosh or atanh panics"));
                let y = lib::acosh(x);
                let z = lib::atanh(x);
                nopanic(None);
                check(!(x < 1.0) || y != y, "acosh outside its domain is not NaN");
                check(!(x > 1.0 || x < -1.0) || z != z, "atanh outside its domain is not NaN");
            }
            fn one(k: u64, x: $f) -> (&'static str, $f) {
                match k {
                    0 => ("sin", lib::sin(x)),
                    1 => ("cos", lib::cos(x)),
                    2 => ("tan", lib::tan(x)),
                    3 => ("asin", lib::asin(x)),
                    4 => ("acos", lib::acos(x)),
                    5 => ("atan", lib::atan(x)),
                    6 => ("sinh", lib::sinh(x)),
                    7 => ("cosh", lib::cosh(x)),
                    8 => ("tanh", lib::tanh(x)),
                    9 => ("asinh", lib::asinh(x)),
                    10 => ("acosh", lib::acosh(x)),
                    11 => ("atanh", lib::atanh(x)),
                    12 => ("exp", lib::exp(x)),
                    13 => ("exp2", lib::exp2(x)),
                    14 => ("exp_m1", lib::exp_m1(x)),
                    15 => ("log2", lib::log2(x)),
                    16 => ("ln", lib::ln(x)),
                    17 => ("ln_1p", lib::ln_1p(x)),
                    18 => ("log10", lib::log10(x)),
                    19 => ("sqrt", lib::sqrt(x)),
                    20 => ("cbrt", lib::cbrt(x)),
                    21 => ("recip", lib::recip(x)),
                    22 => ("sin_cos", lib::sin_cos(x).0),
                    _ => ("sin_cos", lib::sin_cos(x).1),
                }
            }
            pub fn panics1() {
                let x = any("x");
                let k = choose(23, "function");
                nopanic(Some("a generated function of one argument panics"));
                let (_, y) = one(k, x);
                nopanic(None);
                std::hint::black_box(y);
                check(true, "no function of one argument panics");
            }
            pub fn panics2() {
                let (x, y, z) = (any("x"), any("y"), any("z"));
                let n = u64_in(0, <$u>::MAX as u64, "n") as $i;
                let i = u64_in(0, u64::MAX, "index") as usize;
                let k = choose(8, "function");
                nopanic(Some("a generated function of several arguments panics"));
                let r = match k {
                    0 => lib::atan2(x, y),
                    1 => lib::log(x, y),
                    2 => lib::powf(x, y),
                    3 => lib::powi(x, n),
                    4 => lib::hypot(x, y),
                    5 => lib::dnorm(x, y, z),
                    6 => lib::qnorm(x, y, z),
                    _ => lib::rnorm(i, x, y),
                };
                nopanic(None);
                std::hint::black_box(r);
                check(true, "no function of several arguments panics");
            }
            /// An argument whose exponential is certainly too large, or minus one whose exponential is certainly too small.
            fn far() -> $f {
                let x = any("x");
                assume(x >= LARGE || x <= -LARGE);
                x
            }
            pub fn exps() {
                let x = far();
                let y = lib::exp(x);
                check(if x > 0.0 { y == INF } else { y == 0.0 }, "exp does not saturate");
            }
            pub fn exp_m1s() {
                let x = far();
                let y = lib::exp_m1(x);
                check(if x > 0.0 { y == INF } else { y == -1.0 }, "exp_m1 does not saturate");
            }
            pub fn hyps() {
                let x = far();
                match choose(3, "function") {
                    0 => {
                        let s = lib::sinh(x);
                        check(if x > 0.0 { s == INF } else { s == -INF }, "sinh does not saturate");
                    }
                    1 => check(lib::cosh(x) == INF, "cosh does not saturate"),
                    _ => {
                        let t = lib::tanh(x);
                        check(if x > 0.0 { t == 1.0 } else { t == -1.0 }, "tanh does not saturate");
                    }
                }
            }
            pub fn symmetry() {
                let x = any("x");
                let odd = |y: $f, z: $f| check(y == -z || y != y && z != z, "not odd");
                let even = |y: $f, z: $f| check(y == z || y != y && z != z, "not even");
                match choose(9, "function") {
                    0 => odd(lib::sin(x), lib::sin(-x)),
                    1 => odd(lib::tan(x), lib::tan(-x)),
                    2 => odd(lib::asin(x), lib::asin(-x)),
                    3 => odd(lib::atan(x), lib::atan(-x)),
                    4 => odd(lib::sinh(x), lib::sinh(-x)),
                    5 => odd(lib::cbrt(x), lib::cbrt(-x)),
                    6 => odd(lib::recip(x), lib::recip(-x)),
                    7 => even(lib::cos(x), lib::cos(-x)),
                    _ => even(lib::cosh(x), lib::cosh(-x)),
                }
            }
            pub fn nans() {
                let x = any("x");
                assume(x != x);
                let k = choose(24, "function");
                let (n, y) = one(k, x);
                note(n);
                check(y != y, "a function of NaN is not NaN");
            }
        }
        $(#[no_mangle]
        pub extern "C" fn $name() {
            $m::$body()
        })*
    };
}

width!(lib32, f32, u32, i32, 23, h_c16_exp2_integers32 = exp2_integers, h_c16_exp2_above32 = exp2_above, h_c16_exp2_below32 = exp2_below, h_c16_log2_powers32 = log2_powers,
    h_c16_logs32 = logs, h_c16_arcs32 = arcs, h_c16_areas32 = areas, h_c16_exps32 = exps, h_c16_exp_m1s32 = exp_m1s, h_c16_hyps32 = hyps, h_c16_symmetry32 = symmetry, h_c16_nans32 = nans, h_c16_panics1_32 = panics1, h_c16_panics2_32 = panics2);
width!(lib64, f64, u64, i64, 52, h_c16_exp2_integers64 = exp2_integers, h_c16_exp2_above64 = exp2_above, h_c16_exp2_below64 = exp2_below, h_c16_log2_powers64 = log2_powers,
    h_c16_logs64 = logs, h_c16_arcs64 = arcs, h_c16_areas64 = areas, h_c16_exps64 = exps, h_c16_exp_m1s64 = exp_m1s, h_c16_hyps64 = hyps, h_c16_symmetry64 = symmetry, h_c16_nans64 = nans, h_c16_panics1_64 = panics1, h_c16_panics2_64 = panics2);
