"""What each check runs. Every entry is a function of a harness crate; bounds and assumptions go to the evidence file."""
import os
from run import Group, Run, Fail, must, ROOT

COMMON = [
    "the code executed is the LLVM IR rustc (release, opt-level 1) emits for the harness, doctor-syn and all its dependencies (syn, proc-macro2, quote, bigdecimal, num-bigint, std); rustc and LLVM are trusted, the IR interpreter is validated by replaying sample paths natively",
    "memory allocation succeeds",
]


FINDINGS = {"h_c12_not"}


def simple(quick, thorough, bounds, assumptions=(), crate="harness", args=()):
    def go(r: Run, tier):
        g = Group(crate)
        g.prepare()
        g.build_ll()
        g.start_native()
        r.bounds = bounds
        r.assumptions = COMMON + list(assumptions)
        entries = quick if tier == "quick" else thorough
        # Entries of recorded findings are expected to report violations: they run by themselves, in full.
        problems = r.llsym(g, [e for e in entries if e not in FINDINGS], args)
        if any(e in FINDINGS for e in entries):
            problems += r.llsym(g, [e for e in entries if e in FINDINGS], args, grace=False)
        return problems

    return go


TREE = "expression trees are built from source text, so they are the trees syn's parser produces"
CHECKS = {
    "C01": simple(
        ["h_c01_symbolic", "h_c01_numeric", "h_c01_divide", "h_c01_long", "h_c01_form", "h_c01_chain"],
        ["h_c01_symbolic", "h_c01_numeric", "h_c01_numeric3", "h_c01_divide", "h_c01_long", "h_c01_form", "h_c01_chain"],
        ["symbolic operands: 16 operand forms on each side (names, every precedence class of operator, unary minus, method call, cast, string, number), four operations",
         "numeric operands: all values of literals d, dd, d.d, 0.dd on each side (thorough: also dd.d), for + - *; / by 1, 2, 4, 5, 8 of literals d, dd, d.d",
         "sums and differences of 12- to 18-digit literals with one symbolic digit each; literals with exponent, hexadecimal, separators and suffixes; two chained operations with a possibly negative intermediate literal"],
        ["quotients that are not finite decimals are outside the claim (bigdecimal rounds them to 100 digits)"],
    ),
    "C04": simple(
        ["h_c04_small", "h_c04_three", "h_c04_ctx"],
        ["h_c04_small", "h_c04_three", "h_c04_three_special", "h_c04_four", "h_c04_ctx"],
        ["trees with up to 2 operators from + - * unary minus, up to 2 redundant parentheses anywhere, one atom of 11 other kinds (literal, call, method call, cast, field, !, %, <, <<, /, method call with sums inside)",
         "all trees with 3 operators (thorough: 3 with one special atom, 4 plain)"],
        [TREE],
    ),
    "C05": simple(
        ["h_c05_two", "h_c05_names", "h_c05_context"],
        ["h_c05_two", "h_c05_names", "h_c05_context", "h_c05_three", "h_c05_four"],
        ["trees with up to 2 operators from all 18 binary and 2 unary operators with a redundant parenthesis anywhere; in five contexts with 8 operators; thorough: 3 and 4 operators"],
        [TREE],
    ),
    "C06": simple(
        ["h_c06_one", "h_c06_two", "h_c06_find"],
        ["h_c06_one", "h_c06_two", "h_c06_find"],
        ["expressions of two nested constructs, up to three bindings, every name a symbolic letter s..z (so every pattern of equal and different names)"],
        [TREE],
    ),
    "C02": simple(
        ["h_c02_sums", "h_c02_compare", "h_c02_compare_sum", "h_c02_product", "h_c02_quotient", "h_c02_divisor", "h_c02_nested", "h_c02_methods"],
        ["h_c02_sums", "h_c02_compare", "h_c02_compare_sum", "h_c02_product", "h_c02_product_deep", "h_c02_quotient", "h_c02_divisor", "h_c02_nested", "h_c02_methods"],
        ["literals d, dd, d.d, 0.dd, d.dd, dd.d, d.d5, d.d50, 4.99d with every digit symbolic, signed",
         "sums and differences of two to three terms with outer negation or grouping; comparisons of two literals and of sums; products of every pair of forms at 0 to 2 decimals (thorough: longer forms, up to 4 decimals); quotients by 15 divisors and by a symbolic digit or d.d, at 0 to 5 decimals",
         "eight shapes of nested products, quotients and negations at 0 to 2 decimals; abs, signum, round of literals and differences"],
        [TREE, "quotients are compared after rounding to the requested number of digits, at most 5"],
    ),
    "C03": simple(
        ["h_c03_arith", "h_c03_operators", "h_c03_counts", "h_c03_domain", "h_c03_edges", "h_c03_poles"],
        ["h_c03_arith", "h_c03_operators", "h_c03_counts", "h_c03_domain", "h_c03_edges", "h_c03_poles", "h_c02_divisor"],
        ["two nested operators from + - * / < over a symbolic digit, a variable, a string, a path, a truth value; every operator evaluation does not define; 31 method names with the wrong number of arguments (0 to 3)",
         "26 families of arguments outside a domain with a symbolic digit; 98 single cases at the edges of the domains and over every kind of unsupported syntax, 13 cases where an intermediate result rounds to zero (these have no symbolic variable: one path each)"],
        [TREE],
    ),
    "C14": simple(
        ["h_c14_one", "h_c14_exclude", "h_c14_two"],
        ["h_c14_one", "h_c14_exclude", "h_c14_two", "h_c14_two_exclude", "h_c14_exclude_two"],
        ["requested and excluded names are arbitrary strings of printable ASCII bytes other than the comma (existing names and every other string): one request of up to one byte more than the longest name; one request and one exclusion; two requests; both widths",
         "thorough: two requests of up to 4 bytes with one exclusion of up to 6; one request of up to 5 with two exclusions of up to 6"],
        ["what generated code defines and refers to is read off the token streams the generators return (run natively, they have no input besides the width); methods of the primitive types count as available",
         "the table's order and the default number format; the command line parser and main are outside"],
        crate="harness_lib",
    ),
    "C17": simple(
        ["h_c17_round32", "h_c17_round64", "h_c17_negate32", "h_c17_negate64", "h_c17_nextafter32", "h_c17_nextafter64", "h_c17_runif32", "h_c17_runif64", "h_c17_scaled32", "h_c17_scaled64"],
        ["h_c17_round32", "h_c17_round64", "h_c17_negate32", "h_c17_negate64", "h_c17_nextafter32", "h_c17_nextafter64", "h_c17_runif32", "h_c17_runif64", "h_c17_scaled32", "h_c17_scaled64"],
        ["every bit pattern of every argument, 32 and 64 bits, without restriction; the code is what libmgen generates for the Rust language"],
        ["debug overflow checks are on; the functions have no loops, so nothing is unrolled"],
        crate="harness_gen",
    ),
    "C16": simple(
        ["h_c16_exp2_integers32", "h_c16_exp2_integers64", "h_c16_exp2_above32", "h_c16_exp2_above64", "h_c16_exp2_below32", "h_c16_exp2_below64", "h_c16_log2_powers32", "h_c16_log2_powers64", "h_c16_logs32", "h_c16_logs64", "h_c16_arcs32", "h_c16_arcs64", "h_c16_areas32", "h_c16_areas64", "h_c16_exps32", "h_c16_exps64", "h_c16_exp_m1s32", "h_c16_exp_m1s64", "h_c16_hyps32", "h_c16_hyps64", "h_c16_symmetry32", "h_c16_symmetry64", "h_c16_nans32", "h_c16_nans64", "h_c16_panics1_32", "h_c16_panics1_64", "h_c16_panics2_32", "h_c16_panics2_64"],
        ["h_c16_exp2_integers32", "h_c16_exp2_integers64", "h_c16_exp2_above32", "h_c16_exp2_above64", "h_c16_exp2_below32", "h_c16_exp2_below64", "h_c16_log2_powers32", "h_c16_log2_powers64", "h_c16_logs32", "h_c16_logs64", "h_c16_arcs32", "h_c16_arcs64", "h_c16_areas32", "h_c16_areas64", "h_c16_exps32", "h_c16_exps64", "h_c16_exp_m1s32", "h_c16_exp_m1s64", "h_c16_hyps32", "h_c16_hyps64", "h_c16_symmetry32", "h_c16_symmetry64", "h_c16_nans32", "h_c16_nans64", "h_c16_panics1_32", "h_c16_panics1_64", "h_c16_panics2_32", "h_c16_panics2_64"],
        ["every bit pattern of every argument that the statement speaks about, 32 and 64 bits, without restriction (integers of exp2 and powers of two of log2: every exponent of a normal number; saturation: arguments beyond 105 at 32 bits and 750 at 64); the code is what libmgen generates for the Rust language"],
        ["debug overflow checks are on; the functions have no loops, so nothing is unrolled",
         "fused multiply-add and the square root are IEEE operations (round to nearest even)"],
        crate="harness_gen",
    ),
    "C07": simple(
        ["h_c07_short", "h_c07_hard", "h_c07_forms", "h_c07_context", "h_c07_unknown"],
        ["h_c07_short", "h_c07_hard", "h_c07_forms", "h_c07_context", "h_c07_context_ops", "h_c07_unknown"],
        ["literals d, d.d, ddd, d.dd, 0.0dd, d., dd.d with every digit symbolic, 19 written forms (separators, suffixes, hexadecimal, octal, binary, exponents) and 28 literals at ties, subnormals and the largest values with one symbolic digit; both formats, both widths",
         "a symbolic literal inside one or two of 17 surrounding constructs (thorough: with all 18 operators in both); five meaningless formats or widths"],
        [TREE, "core's float parsing (text to nearest float) is the reference for literals of more than 7 characters; shorter ones are compared with one exact IEEE division"],
    ),
    "C08": simple(
        ["h_c08_round", "h_c08_one", "h_c08_wide"],
        ["h_c08_round", "h_c08_one", "h_c08_wide"],
        ["magnitudes below 2^20 with 0 to 5 decimals rounded to 0 to 4 digits; below 2^14 with 1 to 12 decimals and 0 to 12 digits; below 2^30 with 3 to 5 decimals and 0 to 3 digits; both signs"],
        [],
    ),
    "C11": simple(
        ["h_c11_pairs", "h_c11_triples", "h_c11_deep", "h_c11_items"],
        ["h_c11_pairs", "h_c11_triples", "h_c11_triples_all", "h_c11_deep", "h_c11_items"],
        ["every pair of 25 kinds of token (identifiers, keywords, lifetimes, 12 kinds of literal with symbolic characters, every punctuation character, the compound operators, groups of all four delimiters) in five places; triples of the first 9 kinds (thorough: all 25)",
         "braces nested up to 70 deep around 5 kinds of token; eight texts of whole items with symbolic digits"],
        ["proc-macro2's own lexer reads the text back", "groups without delimiters count as their contents, which is all that text can express", "token streams a Rust text can produce (no lone quote, no joined / followed by / or *, no negative literals)"],
    ),
    "C12": simple(
        ["h_c12_two", "h_c12_if", "h_c12_methods", "h_c12_methods_other", "h_c12_bits", "h_c12_literals", "h_c12_lets", "h_c12_items", "h_c12_reject", "h_c12_not"],
        ["h_c12_two", "h_c12_three", "h_c12_if", "h_c12_methods", "h_c12_methods_other", "h_c12_bits", "h_c12_literals", "h_c12_lets", "h_c12_items", "h_c12_reject", "h_c12_not"],
        ["well-typed functions of three floats, integers and truth values: expressions with up to two (thorough: three) operators from all binary and unary ones, casts and conditionals, with a redundant parenthesis anywhere",
         "conditionals of five shapes in eight places; 28 methods C has and 14 it lacks, at both widths, with and without prefix; from_bits and to_bits; 33 written forms of literals with every digit symbolic; local variables with symbolic names, typed, untyped, shadowing, inner blocks, assignment",
         "files with type names, constants and functions calling each other, every parameter and result type; 33 bodies that have no translation"],
        ["C's grammar and meaning are those of the harness's own reader, for GNU C with <math.h>: rejected means this reader does not accept the text",
         "a method or function that Rust and C give the same meaning counts as the same value; mul_add may be unfused; an unsuffixed float literal may be double; methods are those of floats"],
    ),
}
