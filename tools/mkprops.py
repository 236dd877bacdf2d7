#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the text stays readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="doctor-syn/src/"; T=D+"transformation/"; L="libmgen/src/"
p("C01","Arithmetic operators on expressions denote the operation they are named after",
 "For any two expressions a and b and each of +, -, *, /, the expression a op b has the value of a combined by that operation with the value of b, in that order. If both are numeric literals the result is a numeric literal with exactly that decimal value; otherwise the result is a symbolic expression that keeps a and b as whole operands, as built and when printed and parsed back.",
 ["inputs"],"every pair of operand expressions (literals of any digits and scale; composite operands), all four operators",
 "The doc examples combine two literals with +; no test uses a symbolic operand or another operator on symbols.",
 [D+"expression.rs"],[("operator implementations generated by make_op",D+"expression.rs")],["Expression + - * /"])
p("C02","Evaluating arithmetic gives the exact value to the requested digits",
 "Evaluating an expression made of numeric literals, parentheses, unary minus, + - * / and the six comparisons yields a literal equal to the exact mathematical value: sums, differences, negations and comparisons exactly, and each product or quotient to the nearest multiple of 10^-digits. Rounding methods abs, signum and round agree with their mathematical definition (round ties away from zero).",
 ["inputs"],"every literal value (sign, digits, scale) at every leaf, every tree shape over these operators, every digit count",
 "Tests evaluate a dozen fixed literals; carries, borrows, mixed scales, ties and signs are not sampled.",
 [T+"eval.rs",D+"visitor.rs",D+"expression.rs",D+"bdmath.rs"],[("Eval visitor",T+"eval.rs"),("round",D+"bdmath.rs")],["Expression::eval"])
p("C03","Undefined or unsupported evaluation returns an error, never a crash",
 "Evaluating any parseable expression returns either a literal or an error value: division by zero, square roots or logarithms outside their domain, zero or one as a logarithm base, unbound variables, unknown methods, wrong argument counts and unsupported syntax all yield an error and never a panic. An error is never replaced by a made-up number.",
 ["inputs"],"every expression over literals (including zero and negatives), variables, all operators, all supported and unsupported method names and arities",
 "Tests exercise one unbound-variable error; zero divisors and out-of-domain arguments are never evaluated.",
 [T+"eval.rs",D+"bdmath.rs",D+"visitor.rs"],[("Option/Result plumbing in Eval",T+"eval.rs")],["Expression::eval"])
p("C04","Expanding an expression preserves its value and yields a sum of products",
 "For any expression over +, -, *, unary minus and parentheses, with any other expression as atoms, the expanded expression has the same value as the original for every value of the atoms, both as a tree and when printed and parsed back. The result is a plain sum and difference of products: no product or negation has a sum or difference as an operand.",
 ["inputs","programs"],"every expression tree, every assignment to its atoms",
 "The tests compare about ten hand-written expansions; sign handling of nested products and subtractions is a property of all trees.",
 [T+"expand.rs",T+"tools.rs"],[("match_sum/make_sum",T+"expand.rs")],["Expression::expand"])
p("C05","Parenthesising makes grouping explicit without changing meaning",
 "For any expression built from unary and binary operators, the parenthesised expression has the same structure as the original once parentheses are ignored, printing and re-parsing it gives back that same structure, and every operand of an operator that is itself an operator application is enclosed in parentheses. Applying it a second time changes nothing, and it writes nothing to standard output.",
 ["inputs","programs"],"every operator tree, including trees built by substitution whose plain printed form would regroup",
 "Five fixed left-nested sums are tested; trees whose printed form regroups need a tree built programmatically.",
 [T+"paren.rs",T+"tools.rs",D+"visitor.rs"],[("Paren visitor",T+"paren.rs")],["Expression::paren"])
p("C06","Substitution replaces exactly the named variables",
 "Substituting a variable list into an expression replaces every occurrence of each listed variable by its bound expression and nothing else: the first binding of a name wins, unlisted variables and longer paths are untouched, inserted expressions are not substituted again, and the rest of the tree, including the order and number of operands and arguments, is unchanged. Consequently evaluating the substituted expression gives the value of the original with the variables set to the bound values.",
 ["inputs","programs"],"every expression tree of supported forms, every variable list (repeated names, values mentioning listed variables)",
 "Only x+1 with x=1 is tested.",
 [T+"subst.rs",D+"variablelist.rs",D+"visitor.rs",D+"name.rs"],[("Subst visitor",T+"subst.rs"),("VariableList::find",D+"variablelist.rs"),("Visitor default methods",D+"visitor.rs")],["Expression::subst","VariableList::find"])
p("C07","Number retyping writes every literal at the requested width",
 "Retyping an expression's numbers replaces every integer or float literal by a literal denoting the nearest value representable at the requested width: in decimal form a literal with the requested suffix, in hex form a from_bits call on the type of that width whose bits decode to that value. Everything that is not a numeric literal is left exactly as it was, and unknown formats leave the expression unchanged.",
 ["inputs","configurations"],"every literal value, both formats, both widths, every expression around the literal",
 "No test checks the retyped value; the libmgen tests run only decimal output.",
 [T+"use_number_type.rs",D+"visitor.rs"],[("UseNumberType visitor",T+"use_number_type.rs")],["Expression::use_number_type"])
p("C08","Decimal rounding returns the nearest value, ties away from zero",
 "Rounding a decimal to d >= 0 digits returns the multiple of 10^-d nearest to it, choosing the one further from zero on a tie; a value with at most d decimal digits is returned unchanged. It is odd (round(-x) = -round(x)) and never panics.",
 ["inputs"],"every decimal value (mantissa, scale, sign) and every digit count",
 "Four positive values are tested; negative values, ties, carries and negative scales are not.",
 [D+"bdmath.rs"],[("round",D+"bdmath.rs")],["doctor_syn::bdmath::round"])
p("C09","Polynomial approximation interpolates the function at its nodes",
 "The polynomial fitted to a set of points passes through every point to within the working precision, and evaluating it, or the multiply-add expression generated from it, gives the value of the polynomial with the fitted coefficients; with odd or even parity the generated expression contains exactly the odd- or even-power terms. A term count that does not suit the parity is an error, not a panic.",
 ["inputs"],"every set of distinct nodes and values, every number of terms, all three parities",
 "One four-point cubic is checked to 1e-5; a wrong index in the divided-difference recurrence shows only for unequal spacing or higher degree.",
 [D+"polynomial.rs",T+"approx.rs"],[("divided_differences, from_points, eval",D+"polynomial.rs"),("mul_add_polynomial",T+"approx.rs")],["Expression::approx","Polynomial::from_points","Polynomial::eval"])
p("C10","Elementary functions are accurate to the requested number of digits",
 "Evaluating exp, sin, cos, tan, asin, acos, atan, ln, log, log2, log10, exp2, powf, powi, erf, erfc, dnorm, pnorm or the constant PI with d digits returns the true real value with an error that is a small multiple of 10^-d, relative to the larger of one and the result's natural scale, for every argument in the domain.",
 ["inputs"],"every argument in the stated interval of each function, every digit count used by the generator",
 "Tests compare a handful of points against f64 library functions, and so settle neither other arguments nor digits beyond 15.",
 [D+"bdmath.rs",T+"eval.rs"],[("maclaurin series and argument reductions",D+"bdmath.rs")],["Expression::eval"])
p("C11","Formatted Rust output is the same program as the token stream",
 "The text produced by formatting a token stream, when read back as Rust, gives exactly the same sequence of tokens (identifiers, literals, operators, nesting of delimiters) as the stream that was formatted. Formatting never panics, whatever the nesting depth.",
 ["inputs","programs"],"every valid token stream: every adjacent pair of token kinds, every delimiter nesting and depth",
 "Tests only print the text; token pairs such as a literal followed by a keyword, or two operators side by side, are not sampled.",
 [D+"codegen/rust.rs"],[("append_token",D+"codegen/rust.rs")],["codegen::rust::format_token_stream"])
p("C12","Generated C computes what the Rust source computes",
 "For every function the C generator accepts, the C code it emits computes the same results as the Rust source under C's grammar and type rules: operator grouping, argument and statement order, conditionals, casts, literals, local declarations, and method calls such as mul_add, abs, sqrt, from_bits and to_bits on floats all keep their meaning (C may compute intermediate floats more precisely and need not fuse mul_add). Source it cannot translate is left as a marker that no C compiler accepts, never emitted as valid C with another meaning.",
 ["programs","inputs"],"every expression and statement tree of supported forms, every input value",
 "The tests compare fixed strings for single operators; C precedence differs from Rust's, which matters only for particular nestings.",
 [D+"codegen/c.rs"],[("AsC implementations",D+"codegen/c.rs")],["codegen::c","libmgen --language c"])
p("C13","Generated SIMD code is the scalar code applied to every lane",
 "For every function the portable-SIMD generator accepts, each lane of the emitted method's result equals the scalar function applied to that lane of the arguments: comparisons, conditionals, casts, constants, literals and calls keep their meaning, and every constant the function needs is defined before it is used.",
 ["programs","inputs"],"every function body of supported forms, every lane value",
 "The only test prints the output.",
 [D+"codegen/portable_simd.rs"],[("SimdVisitor, convert_*",D+"codegen/portable_simd.rs"),("to_simd",D+"codegen/portable_simd.rs")],["codegen::portable_simd::to_simd","libmgen --language portable-simd"])
p("C14","A generated library is complete, duplicate-free and ordered",
 "For any set of requested functions and any exclusions, the generated set contains every requested function that exists and everything those need, directly or indirectly, each exactly once, in the order of the table, and nothing else, with excluded entries omitted; and the computation terminates. The resulting Rust library refers to no item that is neither defined in it nor excluded, at either width. What an item needs is what the code generated for it refers to; a name that generates no code stands for the names it lists.",
 ["inputs","configurations"],"every subset of function and group names as request and as exclusion",
 "Tests generate a few fixed lists; a missing dependency shows only when that function is requested without another that brings it in.",
 [L+"functions.rs",L+"main.rs"],[("get_functions_and_deps and the FUNCTIONS table",L+"functions.rs"),("generate_libm",L+"main.rs")],["libmgen --functions/--exclude"])
p("C15","Generated functions are accurate throughout their range",
 "Each generated mathematical function (sin, cos, tan, asin, acos, atan, exp, exp2, exp_m1, ln, log2, log10, sinh, cosh, tanh, asinh, acosh, atanh, sqrt, cbrt, recip, and the normal density) differs from the true function by no more than the error limit its generated tests state, for every argument in the range those tests cover, at both widths.",
 ["inputs","configurations"],"every floating-point argument in the stated range, both widths",
 "Generated tests sample a few dozen arguments per function.",
 [L+"trig.rs",L+"inv_trig.rs",L+"log_exp.rs",L+"hyperbolic.rs",L+"recip_sqrt.rs",L+"stats_norm.rs",L+"functions.rs"],[("generator functions gen_*",L+"*.rs")],["libmgen output"])
p("C16","Generated functions handle exact and exceptional arguments correctly",
 "exp2 of an integer in range is exactly that power of two, arguments above the largest exponent (127, 1023) give infinity and arguments of at most -128, -1024 give zero; log2 of a power of two is that exponent exactly; every logarithm of zero is minus infinity, of a negative number NaN and of infinity infinity; asin and acos outside [-1, 1], atanh outside [-1, 1] and acosh below 1 are NaN; exp, exp_m1, sinh, cosh and tanh of arguments far from zero saturate at the limit of the true function on that side. sin, tan, asin, atan, sinh, cbrt and recip are odd, and cos and cosh even, for every argument. Every function of NaN is NaN. No argument makes a generated function panic.",
 ["inputs","configurations"],"every bit pattern of the argument, both widths",
 "Generated tests compare sampled interior points only.",
 [L+"log_exp.rs",L+"hyperbolic.rs",L+"inv_trig.rs",L+"trig.rs",L+"recip_sqrt.rs",L+"auxfuncs.rs"],[("range checks and bit manipulation",L+"log_exp.rs")],["libmgen output"])
p("C17","Generated bit-level helpers do what their names say on every input",
 "round gives the nearest integer, ties away from zero, of every finite argument; negate_on_odd(x, y) is y with its sign flipped exactly when the integer part of x is odd; nextafter gives the next larger representable value, and infinity and NaN unchanged; runif(i, 0, 1) is in [0, 1) for every index, runif(i, min, max) is what runif(i, 0, 1) scaled and shifted gives, and none of them panics.",
 ["inputs","configurations"],"every bit pattern of the arguments in the documented domain, both widths",
 "nextafter is tested at three values and the others not at all.",
 [L+"auxfuncs.rs",L+"stats_random.rs"],[("gen_round, gen_negate_on_odd, gen_nextafter, gen_runif",L+"auxfuncs.rs")],["libmgen output"])
p("C18","Conversions between expressions and numbers are exact",
 "Converting a finite float or a decimal to an expression and back gives the same value bit for bit, and converting a numeric literal to a float gives the nearest representable value; converting a non-numeric expression is an error. Rounding a decimal to IEEE width gives the exact value of the nearest float of that width.",
 ["inputs"],"every finite float, every decimal, every literal",
 "No test converts a float whose decimal expansion is longer than the default formatting precision.",
 [D+"expression.rs",D+"bdmath.rs"],[("From/TryFrom implementations",D+"expression.rs"),("round_ieee",D+"bdmath.rs")],["Expression::from","f64::try_from","round_ieee"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
