#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Unsigned big-integer addition, subtraction and multiplication are exact",
  "For all non-negative big integers of any size, the sum, the difference (when the first operand is not smaller), the absolute difference, the product, the product with a power of two, and the sum or product of a whole sequence equal the exact mathematical value. This holds for every pattern of carries and borrows and for every size, including sizes where a faster multiplication method takes over.",
  ["inputs"], "every pair of unsigned big integers (all lengths, all limb patterns)",
  "Unit tests compare a handful of literals, random numbers and self-consistency of one implementation with another; carry chains, asymmetric lengths and the switch to the recursive multiplication are reached for a few shapes only.",
  ["src/ubigint/arith/add.rs", "src/ubigint/arith/sub.rs", "src/ubigint/arith/mul.rs", "src/ubigint/arith.rs", "src/utils.rs"],
  [("carry propagation in add_mut / add_u32_mut", "src/ubigint/arith/add.rs"), ("borrow propagation in sub_mut / sub_u32_mut", "src/ubigint/arith/sub.rs"), ("schoolbook and Karatsuba multiplication", "src/ubigint/arith/mul.rs"), ("carry normalisation of 64-bit columns", "src/utils.rs")],
  ["UBigInt::add", "UBigInt::sub", "UBigInt::abs_diff", "UBigInt::mul", "UBigInt::mul_pow2", "Sum/Product for UBigInt"])

p("C02", "Integer division and remainder satisfy the Euclidean law",
  "For every non-negative big integer n and every positive d, the quotient q and the remainder r obey n = q*d + r with 0 <= r < d, whatever the lengths and digit patterns of n and d, and the computation terminates. The remainder by a power of two and the quotient and remainder by a machine word agree with the general ones.",
  ["inputs"], "every pair (dividend, positive divisor) of unsigned big integers, including divisors of one, two and many limbs and quotients at their extreme values",
  "Division is an approximate-and-correct recursion whose branches depend on length differences and on leading limbs; tests check random operands and round trips, which almost never hit the correction steps.",
  ["src/ubigint/arith/div.rs", "src/ubigint/arith/rem.rs"],
  [("approximation by leading limbs and recursive correction", "src/ubigint/arith/div.rs"), ("remainder through quotient; word-sized remainder through powers of 2^32", "src/ubigint/arith/rem.rs")],
  ["UBigInt::div", "UBigInt::rem", "UBigInt::div_u32", "UBigInt::rem_u32", "UBigInt::rem_pow2"])

p("C03", "Every operation history keeps values canonical",
  "After any sequence of public operations starting from validly built values, every unsigned integer has no leading zero digit group, zero is never negative, and every rational has a positive denominator, lowest terms and 0 stored as 0/1. As a consequence two values reached through different histories that are mathematically equal compare equal, hash equal and print the same.",
  ["histories"], "every sequence of public operations (pure and in-place, of every operand width) from any valid start values",
  "Each test performs one operation on fresh values; loss of canonical form (a zero with a sign, a leading zero limb, a common factor) only shows in a later step of a sequence.",
  ["src/ubigint.rs", "src/bigint.rs", "src/ratio.rs", "src/utils.rs", "src/ratio/arith/add.rs", "src/ratio/arith/mul.rs", "src/ubigint/funcs/shift.rs"],
  [("removal of leading zero limbs", "src/utils.rs"), ("sign of zero reset", "src/bigint/arith/add.rs"), ("reduction to lowest terms", "src/ratio.rs")],
  ["into_raw of every result", "PartialEq", "Hash", "Display"],
  [("limbs", "little-endian base 2^32 digits, non-empty, top non-zero unless the value is zero", "src/ubigint.rs"), ("sign flag", "false for zero", "src/bigint.rs"), ("denominator / numerator", "positive, coprime", "src/ratio.rs")])

p("C04", "In-place and narrow-operand variants agree with the general operation",
  "For every operation offered in several forms - returning a new value, updating in place, taking a machine word instead of a big number, taking an integer instead of a rational - all forms give the same result for the same mathematical operands. The non-mutating forms leave their operands unchanged.",
  ["inputs", "histories"], "every operand value and every machine word value, including the extreme ones, for each operation family on unsigned integers, signed integers, rationals, matrices and complex numbers",
  "The variants are separate hand-written code paths; tests cross-check them on random small operands and never at the extremes of the machine word or when the operation changes the number of limbs or the sign.",
  ["src/ubigint/arith/add.rs", "src/ubigint/arith/sub.rs", "src/ubigint/arith/mul.rs", "src/ubigint/arith/rem.rs", "src/bigint/arith/add.rs", "src/bigint/arith/sub.rs", "src/bigint/arith/rem.rs", "src/ratio/arith/add.rs", "src/ratio/arith/sub.rs", "src/ratio/arith/mul.rs", "src/ratio/arith/div.rs", "src/matrix.rs", "src/complex/arith/add.rs"],
  [("separate word-operand and in-place implementations", "src/*/arith/*.rs")],
  ["every *_mut, *_u32, *_i32, *_bi method next to its general form"])

p("C05", "Signed integers follow ring laws and truncating division",
  "For all signed big integers, addition, subtraction, multiplication, negation, absolute value and powers are exact; division truncates toward zero and the remainder takes the sign of the dividend so that n = (n/d)*d + n%d. No sign combination or magnitude relation is an exception.",
  ["inputs"], "every pair of signed big integers and every sign/magnitude relation, and every machine word operand including the most negative one",
  "Sign handling is a case split over both signs and the magnitude comparison in every method; tests take few representatives of each case and none at the word extremes.",
  ["src/bigint/arith/add.rs", "src/bigint/arith/sub.rs", "src/bigint/arith/mul.rs", "src/bigint/arith/div.rs", "src/bigint/arith/rem.rs", "src/bigint/arith/pow.rs", "src/bigint/funcs.rs"],
  [("case split over signs", "src/bigint/arith/add.rs"), ("sign of product, quotient, remainder", "src/bigint/arith/div.rs")],
  ["BigInt::add", "BigInt::sub", "BigInt::mul", "BigInt::div", "BigInt::rem", "BigInt::pow_u32", "BigInt::neg", "BigInt::abs"])

p("C06", "Comparison is a total order that agrees with the numeric values",
  "For unsigned integers, signed integers, rationals and 192-bit floats, every comparison operation (less, greater, equal, their negations, three-way, the variants against a machine word, the standard ordering traits, minimum and maximum) answers according to the mathematical values. Equal values hash equally and the order is total: exactly one of less, equal, greater holds for each pair.",
  ["inputs"], "every pair of values of each numeric type and every machine word",
  "Nine or more comparison methods per type are written out by hand; tests sample sorted literals, so a wrong answer confined to equal lengths, equal prefixes, negative pairs or word extremes is not reached.",
  ["src/ubigint/comp.rs", "src/bigint/comp.rs", "src/ratio/comp.rs", "src/fp192/comp.rs"],
  [("limb-wise comparison from the top", "src/ubigint/comp.rs"), ("sign case split", "src/bigint/comp.rs"), ("cross multiplication", "src/ratio/comp.rs"), ("sign, exponent, mantissa comparison", "src/fp192/comp.rs")],
  ["lt/gt/leq/geq/eq/neq/comp and *_u32/*_i32", "Ord/PartialOrd/Hash"])

p("C07", "Integer text output and parsing round-trip in every radix",
  "Printing any integer in decimal, hexadecimal, octal or binary (with or without prefix, through methods or formatting traits) yields exactly its canonical digits, and parsing the prefixed or decimal text gives back the same integer. The result does not depend on how many digits or digit groups the number has.",
  ["inputs"], "every signed and unsigned big integer and every radix",
  "Chunked radix conversion has group boundaries (9 decimal digits, 8 hex digits, octal digits that straddle limbs); tests print a few literals and cannot cover each boundary with inner zero groups.",
  ["src/ubigint/convert.rs", "src/bigint/convert.rs"],
  [("division into groups and zero padding of inner groups", "src/ubigint/convert.rs")],
  ["to_string_dec", "to_string_hex", "to_string_oct", "to_string_bin", "Display/LowerHex/Octal/Binary", "from_string/FromStr/TryFrom<&str>"])

p("C08", "Integer parsing accepts exactly the documented literals",
  "A text parses as an integer exactly when it is an optional minus sign (signed type only) followed by a decimal literal without leading zeros, or by a radix prefix 0x, 0o or 0b (either case) and at least one digit of that radix, with underscores allowed after the first digit; its value is then the literal's value. Every other text, including empty, prefix-only, sign-only and non-ASCII text, yields an error and never a panic or a number.",
  ["inputs"], "every text", "Tests try a few dozen literals; the accepted language is an infinite set whose borders (prefix only, doubled sign, digits too large for the radix) must all be right.",
  ["src/ubigint/convert.rs", "src/bigint/convert.rs", "src/err.rs"],
  [("prefix detection and digit loop", "src/ubigint/convert.rs"), ("sign stripping", "src/bigint/convert.rs")],
  ["UBigInt::from_string", "BigInt::from_string", "FromStr", "TryFrom<&str>", "TryFrom<String>"])

p("C09", "Conversions with machine integers are exact or report an error",
  "Converting any machine integer (8 to 128 bits, pointer-sized, signed or unsigned, bool) into a big integer, rational or between big types preserves the value, and converting back succeeds with the same value exactly when it fits the target type. A value that does not fit yields an error, never a wrapped number or a panic; rationals are truncated toward zero first.",
  ["inputs"], "every value of every machine integer type and every big value, in particular around each type's limits",
  "There are over a hundred conversion impls; tests touch some of them at ordinary values and not at both sides of every limit.",
  ["src/ubigint/convert.rs", "src/ubigint/convert/from.rs", "src/ubigint/convert/into.rs", "src/bigint/convert.rs", "src/bigint/convert/from.rs", "src/bigint/convert/into.rs", "src/ratio/convert/from.rs", "src/ratio/convert/into.rs", "src/impl_macros.rs"],
  [("limb assembly and range checks", "src/ubigint/convert.rs"), ("macro-generated conversion impls", "src/impl_macros.rs")],
  ["From/TryFrom impls", "from_i32..to_i128", "from_u32..to_u128"])

p("C10", "Rational arithmetic is exact and in lowest terms",
  "For all rationals, sum, difference, product, quotient by a non-zero value, integer power (negative powers for non-zero bases), negation, absolute value, reciprocal and the common-denominator form equal the exact mathematical result, whatever common factors numerators and denominators share, and adding complex numbers adds both parts. Each result is in lowest terms with a positive denominator; shrinking a rational to a size limit keeps that form and its sign, changes the value by at most a 2^-60 part, and meets the limit whenever it reports success.",
  ["inputs"], "every pair of rationals with every gcd relation between the four components, and every machine word or big integer operand",
  "Each method has its own shortcut for avoiding the gcd; tests use random fractions, for which most shortcuts' special cases (shared factors, zero, negative denominators from division) are rare.",
  ["src/ratio/arith/add.rs", "src/ratio/arith/sub.rs", "src/ratio/arith/mul.rs", "src/ratio/arith/div.rs", "src/ratio/arith/pow.rs", "src/ratio.rs", "src/ratio/funcs.rs", "src/ratio/convert.rs"],
  [("reduction to lowest terms", "src/ratio.rs"), ("cross-cancellation in *_bi", "src/ratio/arith/mul.rs")],
  ["Ratio::add/sub/mul/div", "Ratio::pow_i32", "Ratio::reci", "common_denom", "from_denom_and_numer"])

p("C11", "Rational truncation, floor, rounding and fraction obey their definitions",
  "For every rational x, truncation is the integer nearest to x not larger in magnitude, floor is the greatest integer not above x, rounding is the nearest integer with halves going away from zero, and the fraction is x minus its truncation with the sign of x. The forms returning integers, rationals, both parts at once, or updating in place agree.",
  ["inputs"], "every rational, in particular integers, halves, values within 1/q of an integer and all negatives",
  "Tests check a few literals; the direction of each rounding must be right for every sign and for every exact or almost-exact half.",
  ["src/ratio/funcs.rs"], [("truncate/floor/round on numerator and denominator", "src/ratio/funcs.rs")],
  ["truncate", "truncate_bi", "floor", "floor_bi", "round", "round_bi", "frac", "truncate_and_frac"])

p("C12", "Decimal text parses to exactly the rational it denotes",
  "A decimal literal with optional sign, integer digits, optional fractional digits, optional exponent and optional underscores parses to exactly the rational number it denotes, in lowest terms; prefixed integers parse as integers. Any other text gives an error, never a panic or a number.",
  ["inputs"], "every text over the literal alphabet and any other character",
  "The parser mixes three separators whose relative order decides the result, and removes factors 2 and 5 by hand; tests use some dozens of literals.",
  ["src/ratio/convert.rs", "src/ratio/convert/from.rs"], [("literal splitting, exponent scaling", "src/ratio/convert.rs")],
  ["Ratio::from_string", "FromStr", "TryFrom<&str>", "TryFrom<String>"])

p("C13", "Decimal renderings are truncations of the true value",
  "The exact rendering of a rational denotes exactly that rational. The length-limited rendering and the scientific notation of any integer or rational (with decimal exponent up to about ten thousand) denote a value of the same sign that differs from the true one by less than one unit of the last digit that can be shown, and that does not exceed it in magnitude (up to a 2^-90 part in the scientific notation of huge fractions). The length-limited rendering stays within the requested length; beyond 10^9990 it keeps only about three digits (0.3 percent), sign and exponent included.",
  ["inputs", "configurations"], "every rational or integer (the digit-exact part: magnitudes 10^-9900 to 10^9900) and every requested length",
  "The printers pick one of several layouts from an approximate logarithm and fix digits up afterwards; tests look at a few strings, so wrong digits or exponents next to powers of ten are not reached.",
  ["src/ratio/convert.rs", "src/ubigint/convert.rs", "src/bigint/convert.rs"],
  [("layout choice by approximate logarithm", "src/ratio/convert.rs"), ("digit extraction and truncation", "src/ubigint/convert.rs")],
  ["Ratio::to_ratio_string", "Ratio::to_approx_string", "to_scientific_notation", "Display", "LowerExp"])

p("C14", "Machine floats convert to exactly the number they represent",
  "Converting any finite 32- or 64-bit float (normal, subnormal, zero of either sign) to a rational or a 192-bit float gives exactly the number the bits represent, and to an integer type that number truncated toward zero. Infinities and NaNs are reported as errors, and the sign, exponent and fraction inspection recomposes to the same number.",
  ["inputs"], "every bit pattern of both float formats", "There are 2^32 and 2^64 patterns in several classes (zero, subnormal, normal, non-finite); tests use a few literals.",
  ["src/ratio/convert/ieee754.rs", "src/ratio/convert/from.rs", "src/bigint/convert/from.rs", "src/ubigint/convert/from.rs", "src/fp192/convert.rs"],
  [("bit-field decomposition", "src/ratio/convert/ieee754.rs")],
  ["Ratio::from_ieee754_f32/f64", "TryFrom<f32>/TryFrom<f64>", "inspect_ieee754_f32/f64", "F192: TryFrom<f32/f64>"])

p("C15", "Conversion to machine floats is faithful and round-trips",
  "Every finite machine float converted to an exact number and back is the same number, and every rational or big integer in the float's range converts to one of the floats adjacent to it (the float itself when exactly representable) with the right sign; conversion is monotone. Rationals and integers too large for the format give an error, never an infinity or NaN; a 192-bit float beyond the range becomes the infinity of its sign.",
  ["inputs"], "every rational and big integer, in particular exact floats, midpoints between neighbours, values that round up to the next power of two, subnormals and values around the largest float",
  "Correctness hinges on rounding carries at binade borders and at the ends of the range, which random test values essentially never hit.",
  ["src/ratio/convert/ieee754.rs", "src/ratio/convert/into.rs", "src/bigint/convert/into.rs", "src/ubigint/convert/into.rs", "src/fp192/convert.rs"],
  [("scaling into [1,2) and mantissa rounding", "src/ratio/convert/ieee754.rs")],
  ["Ratio::to_ieee754_f32/f64", "TryFrom<..> for f32/f64", "From<F192> for f32/f64"])

p("C16", "Integer roots, logarithms, powers and shifts are exact",
  "For every big integer: the integer square root s satisfies s^2 <= n < (s+1)^2, powers and powers of two are exact, word shifts and low-word slices equal multiplication, division and remainder by powers of 2^32, the fixed-point logarithm is the true value truncated to its resolution, and the fixed-point power of two inverts it up to a 2^-28 part of the value or 1. All of them terminate.",
  ["inputs"], "every unsigned big integer, every exponent and every shift distance",
  "Square root iterates to a fixpoint with correction loops, logarithms go through tables; tests sample random inputs and not the perfect squares and their neighbours of each size.",
  ["src/ubigint/funcs.rs", "src/ubigint/funcs/exp.rs", "src/ubigint/funcs/log.rs", "src/ubigint/funcs/shift.rs", "src/ubigint/arith/pow.rs", "src/bigint/funcs.rs"],
  [("Newton iteration with corrections", "src/ubigint/funcs.rs"), ("square-and-multiply", "src/ubigint/arith/pow.rs"), ("table-driven logarithm", "src/ubigint/funcs/log.rs")],
  ["UBigInt::sqrt", "UBigInt::pow_u32", "UBigInt::pow2", "UBigInt::exp2", "UBigInt::log2", "UBigInt::log2_accurate", "shift_left/shift_right/slice_right"])

p("C17", "Number-theoretic functions return the defined values",
  "The greatest common divisor of any two integers divides both and is divisible by every common divisor (gcd with zero is the other operand's magnitude); factorial and Fibonacci numbers satisfy their recurrences for every argument; primality answers are right, and the prime factorisation of any integer above one is a sorted list of primes whose product is that integer.",
  ["inputs"], "every pair of integers and every function argument", "Implementations switch algorithm by argument size (table, small loop, splitting); tests use a few arguments of each.",
  ["src/ubigint/funcs.rs", "src/bigint/funcs.rs", "src/utils.rs"],
  [("Euclid on mixed widths", "src/ubigint/funcs.rs"), ("product splitting for factorial, doubling for Fibonacci", "src/ubigint/funcs.rs"), ("trial division", "src/ubigint/funcs.rs")],
  ["gcd_ubi", "gcd_bi", "UBigInt::factorial", "UBigInt::fibonacci", "is_prime", "prime_factorial", "utils::gcd_i32"])

p("C18", "Iterative real functions converge to the true values",
  "Each arbitrary-precision approximation (pi, e, ln 2, roots, exponential, logarithms, general power) called with a growing iteration count converges to the true real value: its error is below a bound that shrinks with the iteration count, for every argument in the function's domain. The precomputed constants equal the iteration they stand for.",
  ["inputs", "configurations"], "every argument in the domain and every iteration count", "Tests check a few digits of a few values; argument reduction (sign, greater or less than one, powers of two) makes wrong results possible for argument classes only.",
  ["src/ratio/pi.rs", "src/ratio/e.rs", "src/ratio/ln2.rs", "src/ratio/funcs/root.rs", "src/ratio/funcs/exp.rs", "src/ratio/funcs/ln.rs", "src/ratio/funcs/pow.rs", "src/consts.rs"],
  [("series and Newton steps with argument reduction", "src/ratio/funcs/*.rs"), ("precomputed tables", "src/ratio/pi.rs")],
  ["pi_iter", "e_iter", "ln2_iter", "sqrt_iter", "cbrt_iter", "exp_iter", "ln_iter", "log_iter", "pow_iter", "pi_const/e_const/ln2_const"])

p("C19", "Trigonometric approximations converge to the true values",
  "The arbitrary-precision sine, cosine, tangent and their inverses converge to the true real value as the iteration count grows, for every argument in the domain and in every quadrant, and keep the functions' symmetries. Inverse sine and cosine of arguments beyond 1 are refused.",
  ["inputs", "configurations"], "every argument in the domain (every quadrant, multiples of pi/2 neighbourhoods, both signs, small and large) and every iteration count",
  "Range reduction has one branch per quadrant and sign; tests sample a few arguments with loose tolerances.",
  ["src/ratio/funcs/trigo.rs", "src/ratio/funcs/atrigo.rs"],
  [("range reduction modulo 2 pi and Taylor series", "src/ratio/funcs/trigo.rs"), ("inverse functions by series", "src/ratio/funcs/atrigo.rs")],
  ["sin_iter", "cos_iter", "tan_iter", "asin_iter", "acos_iter", "atan_iter"])

p("C20", "Matrix algebra is exact and shape errors are reported",
  "For all rational matrices, sum, scalar and matrix product, transpose, determinant and inverse equal their mathematical definitions for every size: the determinant is the alternating sum over permutations, and a matrix times its inverse is the identity. Operations on incompatible shapes, determinants or inverses of non-square matrices and inverses of singular matrices return an error and never a matrix or a panic.",
  ["inputs"], "every matrix of every shape, including 1x1, singular, zero-laden and permutation matrices",
  "Sizes 1 to 4 have their own hand-expanded formulas and larger ones expand cofactors; tests sample random matrices of few sizes.",
  ["src/matrix.rs", "src/matrix/det.rs", "src/matrix/inv.rs", "src/matrix/utils.rs", "src/matrix/err.rs"],
  [("hand-expanded determinants", "src/matrix/det.rs"), ("adjugate over determinant", "src/matrix/inv.rs"), ("shape checks", "src/matrix.rs")],
  ["Matrix::add/mul/mul_k/transpose/determinant/inverse/from_vec"])

p("C21", "Polynomials and interpolation are exact",
  "Building a polynomial drops vanishing leading coefficients, and evaluation, differentiation and scaling equal their definitions at every argument. A polynomial fitted through points passes through all of them with degree below their number (points with equal abscissae are an error), and the two-point cubic, three-point quadratic and two-point line meet every value and slope they were given.",
  ["inputs"], "every coefficient list, every scale factor and every admissible set of points",
  "Tests fit a few random point sets and look at degree-specific cases only.",
  ["src/poly.rs", "src/poly/from_points.rs"],
  [("Horner-style evaluation", "src/poly.rs"), ("linear system by matrix inverse, closed forms", "src/poly/from_points.rs")],
  ["Polynomial::from_vec/calc/differentiate/mul_k/newton_method", "from_points", "cubic_2_points", "quadratic_3_points", "linear_2_points"])

p("C22", "192-bit float arithmetic is accurate to its precision and ordered",
  "For all 192-bit floats, sum, difference, product, quotient by a non-zero value, and product and quotient with a machine word have the sign of and lie within a few units of the 127th binary digit of the exact result, and are exact whenever both operands and the result are small integers. Negation, absolute value, and multiplication or division by powers of two are exact, and every operation terminates.",
  ["inputs"], "every pair of 192-bit floats: all exponent differences, mantissas at their extremes, both signs, zero",
  "Two hand-rolled 127-bit multiplications and a search-based division have carry and normalisation cases that random doubles (53-bit mantissas) never reach.",
  ["src/fp192.rs", "src/fp192/arith/add.rs", "src/fp192/arith/sub.rs", "src/fp192/arith/mul.rs", "src/fp192/arith/div.rs"],
  [("mantissa alignment, carry and renormalisation", "src/fp192/arith/add.rs"), ("split multiplication", "src/fp192/arith/mul.rs"), ("bitwise search division", "src/fp192/arith/div.rs")],
  ["F192::add/sub/mul/div/mul_i32/div_i32/neg/abs/shl/shr"])

p("C23", "192-bit float rounding and conversions preserve the value",
  "Converting any machine integer to a 192-bit float is exact up to 127 significant bits and converting back gives the truncated value or an error when it does not fit; converting to a rational is exact and back is lossless. Floor, ceiling, truncation, rounding, fraction and the integer test obey their definitions for every value, both signs and every magnitude.",
  ["inputs"], "every 192-bit float and every machine integer", "Bit masks depend on the exponent; tests sample a few doubles.",
  ["src/fp192/convert.rs", "src/fp192/funcs.rs", "src/fp192.rs"],
  [("exponent-dependent masks", "src/fp192/funcs.rs"), ("normalising conversion", "src/fp192/convert.rs")],
  ["From/TryFrom of F192", "floor/ceil/round/truncate/frac/is_integer"])

p("C24", "192-bit float text and compact encodings round-trip",
  "Parsing a decimal, exponent or prefixed literal gives a 192-bit float that agrees with the literal's value to at least 116 binary digits for decimal exponents within about +-5000 (to about 10^13 beyond that, with one binary digit less for each doubling of the exponent), and malformed text is an error, never a panic. The decimal rendering has the right sign and denotes a value within about one unit of the 18th significant digit (or of the 20th decimal place) of the float, and the compact 13-character encoding decodes to a value that agrees with the original to the encoding's precision, or reports an error for out-of-range numbers and malformed codes.",
  ["inputs"], "every literal text, every float and every code", "Tests use a few literals; exponent scaling and digit grouping have many borders.",
  ["src/fp192/convert/string.rs"], [("literal scanner", "src/fp192/convert/string.rs"), ("encoding tables", "src/fp192/convert/string.rs")],
  ["F192::from_str", "F192::to_approx_string", "Display", "into_code13", "from_code13"])

p("C25", "192-bit float elementary functions are accurate on their domains",
  "Square root, integer and binary logarithm, natural logarithm, powers of two, integer and real powers, sine, cosine and tangent of a 192-bit float lie close to the true real value for every argument in the supported domain, with the right sign. Exact cases (perfect squares, powers of two, zero) give exact or next-to-exact results.",
  ["inputs"], "every argument in the supported domain", "Tests compare a handful of arguments against doubles with loose tolerances.",
  ["src/fp192/funcs/sqrt.rs", "src/fp192/funcs/ln.rs", "src/fp192/funcs/pow.rs", "src/fp192/funcs/trigo.rs"],
  [("argument reduction and series", "src/fp192/funcs/*.rs")],
  ["F192::sqrt/ilog2/log2/ln/pow2/powi/pow/from_pow2/sin/cos/tan"])

p("C26", "Undefined operations are refused and never yield a value",
  "Dividing or taking the remainder by zero in any form (integer, rational, machine word, reciprocal, negative power of zero, zero denominator), subtracting a larger unsigned value, and a negative operand where only non-negative ones exist all stop with a panic or an error. None of them ever returns a number, for any other operand.",
  ["inputs"], "every operand of every partial operation", "Tests exercise the defined cases; a missing guard shows only when the undefined case is asked for in each of the variant forms.",
  ["src/ubigint/arith/div.rs", "src/ubigint/arith/rem.rs", "src/ubigint/arith/sub.rs", "src/bigint/arith/div.rs", "src/bigint/arith/rem.rs", "src/ratio/arith/div.rs", "src/ratio/arith/pow.rs", "src/ratio/funcs.rs", "src/ratio/convert.rs", "src/ratio.rs"],
  [("zero checks before dividing", "src/ubigint/arith/div.rs"), ("underflow check of subtraction", "src/ubigint/arith/sub.rs"), ("zero check of the reciprocal", "src/ratio/funcs.rs")],
  ["div*/rem*/reci/pow_i32/from_denom_and_numer", "sub/sub_u32"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
