#![allow(dead_code)]
mod algebra;
mod cgen;
mod common;
mod evals;
mod format;
mod numbers;
mod smoke;
macro_rules! entries {
    ($($m:ident :: {$($f:ident),* $(,)?}),* $(,)?) => {
        const TABLE: &[(&str, extern "C" fn())] = &[$($((stringify!($f), $m::$f)),*),*];
    };
}
entries!(
    smoke::{h_smoke_expand, h_smoke_eval},
    algebra::{h_c01_symbolic, h_c01_numeric, h_c01_numeric3, h_c01_divide, h_c01_long, h_c01_form, h_c01_chain, h_c04_small, h_c04_three, h_c04_three_special, h_c04_four, h_c04_five, h_c04_ctx,
        h_c05_two, h_c05_three, h_c05_context, h_c05_names, h_c05_four, h_c06_one, h_c06_two, h_c06_find},
    evals::{h_c02_sums, h_c02_compare, h_c02_compare_sum, h_c02_product, h_c02_product_deep, h_c02_quotient, h_c02_divisor, h_c02_nested, h_c02_methods,
        h_c03_arith, h_c03_operators, h_c03_counts, h_c03_domain, h_c03_edges, h_c03_poles, h_c08_round, h_c08_wide, h_c08_one},
    numbers::{h_c07_short, h_c07_hard, h_c07_forms, h_c07_context, h_c07_context_ops, h_c07_unknown},
    cgen::{h_c12_two, h_c12_three, h_c12_if, h_c12_methods, h_c12_methods_other, h_c12_bits, h_c12_literals, h_c12_lets, h_c12_items, h_c12_not, h_c12_reject},
    format::{h_c11_pairs, h_c11_triples, h_c11_triples_all, h_c11_deep, h_c11_items},
);

fn main() {
    symrt::setup();
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in TABLE {
        if *n == want {
            f();
            eprintln!("REPLAY-PASSED");
            return;
        }
    }
    std::process::exit(47);
}
