//! C16 and C17: the code libmgen generates, at both widths.
#![allow(dead_code, non_snake_case, non_upper_case_globals, unused_parens, uncommon_codepoints)]

#[path = "../gen/lib32.rs"]
mod lib32;
#[path = "../gen/lib64.rs"]
mod lib64;

mod exact;
mod helpers;

macro_rules! entries {
    ($($m:ident :: {$($f:ident),* $(,)?}),* $(,)?) => {
        const TABLE: &[(&str, extern "C" fn())] = &[$($((stringify!($f), $m::$f)),*),*];
    };
}
entries!(
    helpers::{h_c17_round32, h_c17_round64, h_c17_negate32, h_c17_negate64, h_c17_nextafter32, h_c17_nextafter64, h_c17_runif32, h_c17_runif64, h_c17_scaled32, h_c17_scaled64},
    exact::{h_c16_exp2_integers32, h_c16_exp2_above32, h_c16_exp2_below32, h_c16_log2_powers32, h_c16_logs32, h_c16_arcs32, h_c16_areas32, h_c16_exps32, h_c16_exp_m1s32, h_c16_hyps32, h_c16_symmetry32, h_c16_nans32, h_c16_panics1_32, h_c16_panics2_32,
        h_c16_exp2_integers64, h_c16_exp2_above64, h_c16_exp2_below64, h_c16_log2_powers64, h_c16_logs64, h_c16_arcs64, h_c16_areas64, h_c16_exps64, h_c16_exp_m1s64, h_c16_hyps64, h_c16_symmetry64, h_c16_nans64, h_c16_panics1_64, h_c16_panics2_64},
);

fn main() {
    symrt::setup();
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in TABLE {
        if *n == want {
            f();
            eprintln!("REPLAY-PASSED");
            return;
        }
    }
    std::process::exit(47);
}
