TECH = {"*": "symbolic execution of the compiled code (LLVM IR of doctor-syn and its dependencies) with z3 deciding branches and assertions",
        "C16": "symbolic execution of the generated library's LLVM IR with floating-point arguments as variables; z3 (floating-point theory and abstractions of it that leave operations open) decides every assertion",
        "C17": "symbolic execution of the generated library's LLVM IR with floating-point arguments as variables; z3 decides every assertion"}
LEVEL = {}
NOTE = {"*": "bounded: every input within the bounds stated in the evidence file; counterexamples are replayed natively before they are reported",
        "C12": "bounded: every shape, operator, type, name and literal choice within the bounds; the values of the generated C are compared as terms over symbolic arguments, which the engine's rewriting decides without leaving queries to the solver; counterexamples are replayed natively",
        "C16": "every bit pattern of the argument, at both widths, of the library generated by the current tree; counterexamples are replayed natively",
        "C17": "every bit pattern of the arguments, at both widths, of the library generated by the current tree; counterexamples are replayed natively"}
NA = {
 "C09": "fitting runs Lagrange interpolation and term evaluation over BigDecimal values with 40 and more digits and a symbolic number of terms: long division and multiplication of multi-limb numbers are nonlinear over more bits than the solver decides",
 "C10": "the functions are series over BigDecimal with hundreds of dependent multi-limb multiplications and divisions, and the specification is a transcendental function: neither the loop nor the oracle has an encoding within reach",
 "C15": "the specification is a transcendental function over the reals; the error of a 10 to 20 operation floating-point kernel against it is outside what an SMT solver decides for all arguments",
}
