#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

I = ["inputs"]; IH = ["inputs", "histories"]; IC = ["inputs", "configurations"]

prop("A01", "Modular integers are exactly the ring Z/mZ, for every int modulus",
 "For every modulus m from 2 up to the largest int, addition, subtraction, negation, multiplication, division and integer powers of residues return the canonical representative in 0..m-1 of the mathematically exact result, whatever int was used to build the operands. "
 "A residue has a reciprocal exactly when it is coprime to m, that reciprocal multiplied back gives 1, and the answer does not depend on which moduli or residues were queried before. "
 "Combining residues of different moduli, or dividing by a non-unit, is reported as an error and never yields a value.",
 IH, "all moduli, all residues and exponents, all sequences of reciprocal queries over alternating moduli",
 "Tests use a handful of residues modulo tiny primes; large moduli (products past 2^31), composite moduli and the cached totient inside reciprocal are never exercised together.",
 ["spffl/intmath/intmod_t.cpp", "spffl/intmath/intmod_t.h", "spffl/intmath/int_totient.cpp"],
 [("canonicalising constructor and operators", "spffl/intmath/intmod_t.cpp operator+,-,*,/"), ("reciprocal by Euler exponent with per-modulus cache", "intmod_t::recip")],
 [("cached modulus/totient", "last modulus asked for a reciprocal and its Euler phi", "intmod_t::recip statics")])

prop("A02", "Rational numbers are exact and always in lowest terms",
 "Whenever operands and the exact result are representable, sums, differences, products, quotients, powers and negations of rationals equal the exact rational result, stored with positive denominator and coprime numerator and denominator. "
 "Two rationals compare equal, less or greater exactly as the numbers they denote, however they were constructed. "
 "A zero denominator or division by zero is reported as an error.",
 I, "all pairs of fractions with bounded numerator and denominator, including sign and zero edge cases and values near the int limits",
 "Tests cover a few positive fractions; sign normalisation, comparison across signs and intermediate overflow are not sampled.",
 ["spffl/intmath/intrat_t.cpp", "spffl/intmath/intrat_t.h"],
 [("simplify() after each construction", "intrat_t::simplify"), ("cross-multiplied arithmetic and comparison", "intrat_t operators")])

prop("A03", "Integer number theory returns its mathematical definitions",
 "Greatest common divisor is the non-negative gcd, the extended form returns multipliers satisfying the Bezout identity for every pair of ints, least common multiple is the least common positive multiple, and the Euler totient of n > 1 counts the residues coprime to n. "
 "Integer power, integer square root (floor and ceiling), ceiling and floor of logarithms, bit counts and highest/lowest set-bit queries equal their definitions. "
 "Primality and n-th prime agree with the sieve.",
 I, "all ints within a complete small range in every argument, plus complete families around powers of two, squares, and the type limits",
 "Tests sample a few values per function; off-by-one errors at powers of two, squares, sign combinations and zero arguments are not reached.",
 ["spffl/intmath/int_gcd.cpp", "spffl/intmath/int_totient.cpp", "spffl/intmath/int_power.cpp", "spffl/intmath/int_sqrt.cpp", "spffl/intmath/log2.cpp", "spffl/intmath/log10.cpp", "spffl/intmath/is_prime.cpp", "spffl/intmath/primes_16.cpp", "spffl/bits/count_bits.cpp"],
 [("Euclid and extended Euclid loops", "int_gcd.cpp"), ("prime table then wheel", "is_prime.cpp, primes_16.cpp"), ("table/shift bit tricks", "log2.cpp, count_bits.cpp")])

prop("A04", "Polynomials over F2 form an exact Euclidean domain at every size",
 "For bit-polynomials of any degree, including those spanning several machine words, sum, product, quotient and remainder, powers, derivative, evaluation, square root, comparison, increment, shifts and coefficient access equal the mathematical operations on coefficient lists. "
 "Division always yields a remainder of smaller degree that reconstructs the dividend, gcd divides both operands and is a combination given by the extended gcd, and a square root exists exactly for squares. "
 "Equality and printing depend only on the polynomial's value, never on the sequence of operations that produced it.",
 IH, "all pairs of polynomials up to a degree bound, all sparse patterns around every 32/64-bit boundary, all short sequences of mutating operations",
 "Tests use fixed small polynomials within one or two words; carries across word boundaries and stale high words after cancellation depend on exact bit positions.",
 ["spffl/polynomials/f2_poly_t.cpp", "spffl/polynomials/f2_poly_t.h", "spffl/bits/count_bits.cpp"],
 [("word-vector arithmetic with trim_parts", "f2_poly_t::operator*, quot_and_rem, _promote_n"), ("set_coeff / extend_parts", "f2_poly_t.cpp")],
 [("parts", "vector of 64-bit words, least significant first, no leading zero word", "f2_poly_t")])

for (pid, nm, ff, base, extra) in (
 ("A05", "Fp", "fp", "the prime field with p elements", "spffl/polynomials/fp_poly_t"),
 ("A06", "F2^n", "f2n", "a binary extension field", "spffl/polynomials/f2n_poly_t"),
 ("A07", "Fp^n", "fpn", "a prime-power field", "spffl/polynomials/fpn_poly_t")):
  prop(pid, f"Polynomials over {nm} form an exact Euclidean domain",
   f"For polynomials over {base}, sum, difference, negation, product, scalar operations, powers, quotient and remainder, derivative, evaluation, {'square' if ff=='f2n' else 'p-th'} root, base-integer encoding and ordering equal the mathematical operations on coefficient lists, with the stored degree always that of the leading non-zero coefficient. "
   "Division yields a remainder of smaller degree that reconstructs the dividend; gcd is a common divisor of maximal degree and extended gcd returns multipliers that produce it. "
   "Copying, assigning (also to itself) and mutating one polynomial never changes or corrupts another, dividing by zero is reported as an error, and so is a sum, difference or product of non-constant polynomials over different fields.",
   IH, "all pairs of polynomials up to a degree bound over several fields, long/sparse/degree-cancelling shapes, all short sequences of mutating operations on two objects",
   "Tests check a few products and quotients per class; cancellation of leading coefficients, zero operands, characteristic-dependent vanishing and aliasing are combinations they do not visit.",
   [extra + ".cpp", extra + ".h"],
   [("coefficient array with recompute_degree", extra + ".cpp"), ("schoolbook division and Euclid", "quot_and_rem, gcd, ext_gcd"), ("deep copy and grow on set_coeff/promote", "operator=, set_coeff, promote")],
   [("coeffs/degree", "owned array of degree+1 coefficients", extra + ".h")])

prop("A08", "Rational-coefficient and cyclotomic polynomials are exact",
 "For polynomials with rational coefficients, sum, difference, negation, product, quotient and remainder, powers, derivative, evaluation, gcd and extended gcd equal the exact operations whenever the coefficients are representable. "
 "The n-th cyclotomic polynomial is the monic integer polynomial of degree phi(n) whose product over all divisors of n is x^n-1, and reducing coefficients modulo p gives the exact image over the finite field. "
 "Copying and assignment never alias, and division by zero is reported.",
 IH, "all pairs of small rational polynomials up to a degree bound, all n up to a bound",
 "Tests exercise a few examples; unary negation, cancellation and large n are not covered.",
 ["spffl/polynomials/q_poly_t.cpp", "spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/q_cyclotomic/qff.cpp"],
 [("coefficient array with recompute_degree", "q_poly_t.cpp"), ("cyclotomic recursion by division", "cyclo_poly.cpp")])

prop("A09", "Polynomial residue rings are exact quotient rings",
 "For each kind of polynomial residue (over F2, Fp, F2^n and Fp^n) and every modulus of positive degree, arithmetic and integer powers give the canonical remainder of the exact polynomial result, and embedding an integer gives its image in the prime subfield. "
 "A residue is invertible exactly when it is coprime to the modulus, and its reciprocal multiplied back gives one; division by a non-unit is reported as an error. "
 "Residues with different moduli are never silently combined.",
 IH, "all moduli up to a degree bound over several base fields, all pairs of residues, exponents positive, zero and negative",
 "Tests use one field per class; reducible moduli, zero divisors, negative exponents, scalar multiplication by negative or large ints, and two-level towers are untested.",
 ["spffl/polynomials/f2_polymod_t.cpp", "spffl/polynomials/fp_polymod_t.cpp", "spffl/polynomials/f2n_polymod_t.cpp", "spffl/polynomials/fpn_polymod_t.cpp"],
 [("reduce after each operation", "*_polymod_t operators"), ("reciprocal through extended gcd", "*_polymod_t::recip"), ("modulus check", "check_moduli")])

prop("A10", "Rational functions behave as the fraction field",
 "For quotients of polynomials over F2, Fp and F2^n, addition, subtraction, negation, multiplication, division and powers equal the exact fraction, and results are stored with coprime numerator and denominator. "
 "Two rational functions built from cross-multiplication-equal fractions compare equal, and the ordering comparisons agree with each other and with equality. "
 "A zero denominator or division by zero is reported as an error.",
 I, "all pairs of fractions of polynomials up to a degree bound over several fields",
 "Tests contain only fixed examples over F2; canonicalisation of denominators over larger fields and signs is not covered.",
 ["spffl/rationals/f2_polyrat_t.cpp", "spffl/rationals/fp_polyrat_t.cpp", "spffl/rationals/f2n_polyrat_t.cpp"],
 [("simplify() by gcd", "*_polyrat_t::simplify")])

prop("B01", "Integer factorization is complete, and its divisors are exactly the divisors",
 "Factoring any int whose absolute value is an int yields distinct primes with positive multiplicities and at most a unit, whose product is the integer. "
 "The divisor list derived from a factorization contains every positive divisor exactly once in ascending order, with maximal proper divisors being exactly the integer over each prime. "
 "Factor, multiplicity and divisor queries agree with each other, and out-of-range factor indices are reported.",
 I, "all integers in a complete range around zero plus families near squares of primes and the int limits",
 "Tests factor a few integers.", ["spffl/factorization/int_factor.cpp", "spffl/containers/tfacinfo.h"],
 [("trial division", "int_factor.cpp"), ("mixed-radix divisor enumeration", "tfacinfo_t::kth_divisor / get_all_divisors / get_maximal_proper_divisors")])

for (pid, nm, f, tot) in (
  ("B02", "F2[x]", "f2", True), ("B03", "Fp[x]", "fp", True), ("B04", "F2^n[x]", "f2n", True)):
  extra_roots = " Root finding returns exactly the distinct field elements at which the polynomial vanishes." if pid in ("B04",) else ""
  prop(pid, f"Factorization in {nm} is complete, with exact irreducibility and totient",
   f"Every non-zero polynomial over the field factors into pairwise distinct irreducible polynomials with exact multiplicities whose product, with at most one constant factor, is the polynomial. "
   "The irreducibility test agrees with the absence of any proper divisor, and the totient is the number of residues coprime to the polynomial." + extra_roots,
   I, "all polynomials up to a degree bound over several fields, all products of irreducibles with multiplicities (including multiples of the characteristic), selected larger degrees",
   "Tests factor a few fixed polynomials; repeated factors with multiplicity divisible by the characteristic and equal-degree splitting depend on the exact input.",
   [f"spffl/factorization/{f}_poly_factor.cpp", f"spffl/factorization/{f}_poly_totient.cpp", "spffl/containers/tfacinfo.h"],
   [("square-free step via derivative and root of p-th powers", f"{f}_poly_factor.cpp pre-Berlekamp"), ("Berlekamp kernel and splitting", f"{f}_poly_factor.cpp"), ("recursion and merge of factor lists", "tfacinfo_t::merge, exp_all")])

prop("B05", "Irreducible and primitive polynomial searches return the first that qualifies",
 "The search for an irreducible polynomial of a given degree over F2, a prime field or a binary extension field returns the first monic one with non-zero constant term in the library's ordering, and likewise for primitive (optionally irreducible) polynomials over F2; random searches return, under every seed, a monic qualifying polynomial of exactly the requested degree. Degrees below one are errors. "
 "The primitivity test over F2 is true exactly when x generates the multiplicative group modulo the polynomial, and the reported period is the exact multiplicative order of x (0 when x is not invertible).",
 I, "all degrees up to a bound, all polynomials up to a degree bound, all generator seeds in a bounded set",
 "Tests compare a few canned outputs.",
 ["spffl/factorization/f2_poly_factor.cpp", "spffl/factorization/fp_poly_factor.cpp", "spffl/factorization/f2n_poly_factor.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/fp_units.cpp"],
 [("lexical scan with irreducibility test", "*_find_irr"), ("order test through maximal proper divisors", "f2_poly_is_primitive, *_find_prim, *_period")])

prop("B06", "Multiplicative orders and generators are exact",
 "The order of a unit in a modular ring is the least positive exponent taking it to one, and a non-unit is reported as having none. "
 "The generator search returns an element whose order is the whole unit group when that group is cyclic and otherwise reports that there is none.",
 I, "all moduli and all residues up to a bound, for integers and for polynomial residues over F2, Fp and F2^n",
 "Tests compute a few orders.",
 ["spffl/units/fp_units.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/f2n_polymod_units.cpp", "spffl/factorization/int_factor.cpp"],
 [("divisor scan of the group order", "*_order"), ("maximal proper divisors test", "*_find_generator")])

prop("B07", "Discrete logarithms are exact",
 "In a finite field of fewer than 2^31 elements, the discrete logarithm of a to the base g returned is an exponent e with g^e = a and 0 <= e < size of the multiplicative group, for every base and every element that is one of its powers. "
 "When no logarithm exists or the base is invalid the failure is reported, and the search always terminates.",
 I, "all (base, element) pairs in fields up to a bounded size, prime and extension",
 "Tests compute a few logarithms in small fields.",
 ["spffl/units/fp_units.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/f2n_polymod_units.cpp", "spffl/base/cmps.h"],
 [("baby-step giant-step table with sort and binary search", "fp_log, f2_polymod_log, f2n_polymod_log")])

prop("B08", "Element lists are complete, duplicate-free and ordered",
 "Listing the residues, units or non-units of a modulus, the multiples of or residues relatively prime to a residue's common divisor with the modulus, the polynomials of a given degree, or the points of affine or projective space over a finite field yields every member (for projective space one representative of every point) exactly once and none else; polynomials, residues and affine points come in ascending order. "
 "List lengths equal the mathematical counts (number of residues, totient, number of points).",
 I, "all moduli and degrees up to a bound for each ring",
 "Tests check short canned lists.",
 ["spffl/list/list_elements.cpp", "spffl/list/list_elements.h"],
 [("enumeration by counting/increment", "list_elements.cpp")])

prop("L01", "Bit vectors and bit matrices keep value semantics through any operation history",
 "After any sequence of constructing, assigning (including to itself, or to larger, smaller or empty objects), element writes, toggles, swaps, row operations and arithmetic, a bit vector or bit matrix holds exactly the bits the same sequence gives on plain arrays, and objects never share storage. "
 "Equality, zero and identity tests, leader position, dot product, transpose, outer product, paste and split agree with the element-wise definition at every size, including lengths that are not a multiple of the word size. "
 "Index and dimension mismatches are reported as errors and leave the operands unchanged.",
 IH, "all operation sequences up to a depth on two objects with lengths around 0, 1, 63, 64, 65, 128, plus all contents of small sizes",
 "Unit tests build vectors of a few fixed sizes; size-changing assignment, last-partial-word comparison and aliasing depend on history and length.",
 ["spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_vector_t.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_t.h"],
 [("word-packed storage with trailing-bit trim", "bit_vector_t::trim, NWORDS_FROM_NBITS"), ("deep copies", "operator=, copy constructors")],
 [("words/num_words/num_bits", "owned word array and logical length", "bit_vector_t"), ("rows", "owned array of row vectors", "bit_matrix_t")])

prop("L02", "Linear algebra over F2 on bit matrices is exact",
 "For every bit matrix, reduction yields a reduced row-echelon form with the same row space, rank is the size of the row space, the kernel basis is an independent set of that many complementary dimensions annihilated by the matrix, and the determinant is non-zero exactly for full-rank square matrices. "
 "An inverse is returned exactly when one exists and multiplies back to the identity; matrix product, matrix-vector product and integer powers equal their definitions. "
 "Non-square or mismatched operands are reported.",
 I, "all matrices up to a size bound, plus structured families whose columns straddle word boundaries",
 "Tests reduce a few small matrices; pivot search, dependent last rows and columns past bit 64 depend on the exact pattern.",
 ["spffl/bits/bit_matrix_t.cpp", "spffl/linalg/f2_linear_algebra.cpp"],
 [("row_reduce_below / row_echelon_form", "bit_matrix_t.cpp"), ("kernel from free columns", "bit_matrix_t::get_kernel_basis")])

prop("L03", "Generic matrix linear algebra over fields is exact",
 "For matrices over every supported field, reduction yields the reduced row-echelon form with the same row space, and rank, determinant, inverse, kernel basis, linear-system solution, product, integer power, transpose, paste and split equal their definitions. "
 "An inverse or a unique solution is returned exactly when one exists. "
 "Mismatched or non-square operands are reported as errors.",
 I, "all matrices up to a size bound over several small fields, including rectangular, rank-deficient and zero matrices",
 "Tests use a few invertible matrices; rank deficiency, zero columns, pivot swaps (determinant sign) and rectangular shapes are under-covered.",
 ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h", "spffl/linalg/fp_linear_algebra.cpp"],
 [("row_reduce_below_with_scalar, row_echelon_form", "tmatrix.h"), ("kernel and solve", "tmatrix_t::get_kernel_basis, solve_unique*"), ("square-and-multiply", "tmatrix_t::exp")])

prop("L04", "Determinants over Euclidean domains, characteristic polynomials and companions agree",
 "The characteristic polynomial of a matrix over F2, Fp or F2^n is the determinant of xI - A, monic of the matrix dimension, and the matrix satisfies it. "
 "The companion matrix of a monic polynomial has that polynomial as its characteristic polynomial. "
 "Over the integers or a polynomial ring, fraction-free elimination gives the determinant, and a matrix is inverted over that ring exactly when its determinant is a unit.",
 I, "all matrices up to a size bound over several fields; all monic polynomials up to a degree bound",
 "Tests include a couple of examples.",
 ["spffl/linalg/f2_linear_algebra.cpp", "spffl/linalg/fp_linear_algebra.cpp", "spffl/linalg/f2_polymod_linear_algebra.cpp", "spffl/containers/tmatrix.h"],
 [("determinant over polynomial entries", "tmatrix_t::ed_row_reduce_below / det over polynomials"), ("companion construction", "*_companion_matrix")])

prop("L05", "Minimal and characteristic polynomials of field elements are exact",
 "For every element of an extension field over F2 or Fp, the minimal polynomial is the monic polynomial of least degree over the prime field vanishing at the element. "
 "The characteristic polynomial is the determinant of x minus multiplication by the element, i.e. the matching power of the minimal polynomial for a field element.",
 I, "all elements of all extension fields up to a bounded size",
 "Tests check a few elements.", ["spffl/linalg/min_char_polys.cpp"],
 [("powers matrix and kernel", "min_char_polys.cpp")])

prop("L06", "Field conversion and diagonalization respect the algebra",
 "Converting residues, polynomials, vectors or matrices between two representations of a binary field is an injective ring homomorphism fixed by its value at the generator, onto the unique subfield of that size, whenever the first degree divides the second; otherwise it is refused. "
 "Deciding whether a matrix is diagonalizable gives yes exactly when it is over the splitting field of its characteristic polynomial, and the splitting field and distinct eigenvalues reported with the answer are the true ones.",
 I, "all pairs of irreducible moduli up to a degree bound and all elements; all matrices up to a size bound over small fields",
 "Tests include one example.", ["spffl/linalg/f2_polymod_convert.cpp", "spffl/linalg/f2_polymod_linear_algebra.cpp"],
 [("basis-change matrix from a root of the other modulus", "f2_polymod_convert.cpp"), ("eigen decomposition via characteristic roots", "f2_polymod_linear_algebra.cpp")])

prop("C01", "Vectors and matrices of ring elements keep value semantics through any history",
 "After any sequence of construction, assignment (to itself, to larger, smaller or empty objects), element writes, swaps and arithmetic, a vector or matrix holds exactly what the same sequence gives on plain arrays, and no two objects share storage. "
 "Index and dimension errors are reported and leave operands unchanged.",
 IH, "all operation sequences up to a depth over two objects with sizes 0..3, several element types",
 "Tests construct fixed objects; size-changing assignment and aliasing depend on the history.",
 ["spffl/containers/tvector.h", "spffl/containers/tmatrix.h"],
 [("deep copy and resize", "tvector_t/tmatrix_t operator=")],
 [("elements/num_elements", "owned array and its length", "tvector_t"), ("rows", "owned array of row vectors", "tmatrix_t")])

prop("C02", "Factor lists and stacks keep exact contents through any history",
 "After any sequence of inserting factors with multiplicities, merging, sorting, copying and raising to powers, a factorization object reports exactly the accumulated multiset, its unit, and the product it stands for. "
 "A stack returns pushed items last-in-first-out at any depth, and reading or removing from an empty stack is reported as an error.",
 IH, "all operation sequences up to a depth over a small alphabet of factors and items",
 "Tests insert a few factors; growth, merging duplicates and copy-then-mutate orders are combinations.",
 ["spffl/containers/tfacinfo.h", "spffl/containers/tstack.h"],
 [("growing array with merge on equal factor", "tfacinfo_t::insert_factor"), ("linked/array stack", "tstack_t push/pop")])

prop("I01", "Scalars survive text round trips, and malformed text is rejected",
 "Printing any number, residue, polynomial or rational and reading the text back in the same ring gives the same value, and reading reduces any in-range text to the ring element it denotes. "
 "Text that is not a complete well-formed element is rejected with a failure indication, without crashing or corrupting the target.",
 I, "all values up to a bound for each scalar kind; all strings up to a length over a hostile alphabet",
 "Regression scripts only parse well-formed command-line literals.",
 ["spffl/bits/bit_t.cpp", "spffl/intmath/intmod_t.cpp", "spffl/intmath/intrat_t.cpp", "spffl/polynomials/f2_poly_t.cpp", "spffl/polynomials/fp_poly_t.cpp", "spffl/polynomials/f2n_poly_t.cpp", "spffl/polynomials/fpn_poly_t.cpp", "spffl/polynomials/f2_polymod_t.cpp", "spffl/rationals/f2_polyrat_t.cpp", "spffl/rationals/fp_polyrat_t.cpp", "spffl/base/tokenize.cpp"],
 [("operator<< / operator>> / from_string per class", "*_t.cpp"), ("delimiter tokenizer", "spffl/base/tokenize.cpp")])

prop("I02", "Vectors and matrices survive text round trips",
 "Printing a vector or matrix and reading the text back yields an equal object for every shape and content, in any object previously holding something else. "
 "Ragged, truncated or malformed matrix text is rejected without crashing.",
 IH, "all shapes and contents up to a bound, widths past the line-buffer sizes, targets with every prior shape",
 "No test reads a vector or matrix from text.",
 ["spffl/containers/tvector.h", "spffl/containers/tmatrix.h", "spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_matrix_t.cpp", "spffl/base/line_scan.cpp"],
 [("line-oriented readers", "operator>>")])

prop("R01", "The pseudo-random generator is the specified deterministic function of its state",
 "The seeded generator's output stream is a pure function of its seed: restarting with the same seed reproduces the stream, the block function is the invertible psDES Feistel network of the published algorithm, and successive outputs advance the 64-bit state by exactly one, including across word carries.",
 ["inputs", "histories"], "all seeds in a bounded set including carry boundaries, all interleavings of seeding and drawing up to a depth",
 "Tests check one or two outputs.", ["spffl/bitrand/psdes.cpp", "spffl/bitrand/psdes.h"],
 [("Feistel rounds with constants", "psdes.cpp"), ("two-word counter state with carry", "iran32, sran32")],
 [("global state words", "current generator counter", "psdes.cpp")])

prop("R02", "Random element generators always respect their contract",
 "Random residues are canonical for the requested modulus, random polynomials have exactly the requested degree and canonical coefficients, every permitted value is reachable, and out-of-range moduli and degrees are errors. "
 "The same seed reproduces the same elements.",
 ["inputs", "histories"], "all seeds in a bounded set times all small ranges, degrees and moduli",
 "Tests cannot check outputs of generators seeded by time.",
 ["spffl/random/int_random.cpp", "spffl/random/intmod_random.cpp", "spffl/random/f2_poly_random.cpp", "spffl/random/fp_poly_random.cpp", "spffl/random/f2n_poly_random.cpp", "spffl/random/f2_polymod_random.cpp", "spffl/random/fp_polymod_random.cpp", "spffl/random/f2n_polymod_random.cpp"],
 [("range reduction of 32-bit outputs", "int_random.cpp"), ("coefficient fill", "*_poly_random.cpp")])

prop("X01", "Command-line arithmetic evaluates by the stated precedence and associativity",
 "Evaluating a tokenised arithmetic expression gives the value of the mathematical expression under the documented grammar: powers bind tightest, then unary minus, then times, divide and modulus, then plus and minus, left-associative for the last two, with parentheses overriding. "
 "A token sequence outside the grammar is rejected with a message and non-success, never silently truncated or accepted.",
 ["inputs", "programs"], "all token sequences up to a length over the full token alphabet, in several rings",
 "Regression tests evaluate a fixed list of expressions.",
 ["spffl/cli_parser/cmd_line_ops.h", "spffl/containers/tstack.h"],
 [("recursive descent / LL(1) parser", "cmd_line_ops.h")])

prop("X02", "Command-line vector and matrix expressions evaluate exactly",
 "Evaluating an expression over vectors or matrices, including transpose, determinant, rank, kernel, echelon form and inverse operators, gives the value of the mathematical expression under the documented grammar. "
 "Ill-formed or type-mismatched token sequences are rejected and never evaluate to a wrong value.",
 ["inputs", "programs"], "all token sequences up to a length over a small operand set",
 "Regression tests evaluate a fixed list.",
 ["spffl/cli_parser/cmd_line_matrix_ops.h", "spffl/cli_parser/cmd_line_vector_ops.h"],
 [("recursive-descent parsers over typed operands", "cmd_line_*_ops.h")])

prop("X03", "Brace interpolation substitutes nested command output exactly",
 "An argument list with brace-enclosed sub-commands is expanded exactly as if each innermost command had been run first and its whitespace-separated output words inserted in its place, in order and at any nesting depth. "
 "Unbalanced braces or failing sub-commands are reported instead of producing a wrong argument list.",
 ["inputs", "programs", "fault_sequences"], "all argument sequences up to a length over words and braces, all sub-command output shapes including empty, multi-line and long",
 "No test covers nesting combinations or failures.", ["spffl/cli_parser/cmd_interp.cpp"],
 [("recursive expansion with sub-process execution", "cmd_interp.cpp")])

prop("X04", "Every command verb computes the library function it names",
 "For each command of the command-line tool and every valid argument list, the printed output is exactly the textual form of the mathematical function the verb names, one result per input where the verb is mapped over its arguments. "
 "Unknown verbs, missing or malformed arguments produce a usage or error message, with no result line for the malformed argument and no crash.",
 ["inputs", "programs"], "all verbs times small argument alphabets, including no, too few and malformed arguments",
 "Regression runs fixed command lines; argument-order mistakes and error paths are not covered.",
 ["cli/spiff/spiff_main.cpp", "cli/spiff/z_handlers.cpp", "cli/spiff/f2_handlers.cpp", "cli/spiff/fp_handlers.cpp", "cli/spiff/f2_poly_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp", "cli/spiff/fp_poly_handlers.cpp", "cli/spiff/fp_polymod_handlers.cpp", "cli/spiff/f2n_poly_handlers.cpp", "cli/spiff/f2n_polymod_handlers.cpp", "cli/spiff/fpn_poly_handlers.cpp", "cli/spiff/fpn_polymod_handlers.cpp", "cli/spiff/q_handlers.cpp"],
 [("verb table dispatch", "spiff_main.cpp"), ("per-ring handlers", "cli/spiff/*_handlers.cpp")])

prop("M01", "Repeated computation does not accumulate memory",
 "Every arithmetic operator, comparison, copy, assignment, container operation, matrix algorithm, factorization, listing, search, random generator and text conversion, whether it completes or reports an error, leaves behind no heap memory other than the value it returns: repeating a call whose result is discarded leaves the amount of memory in use unchanged. "
 "Long enumerations and searches therefore run in space bounded by their results.",
 ["inputs", "histories"], "every operation of every type on all ordered pairs of a set of operand values, repeated until caches are warm and then measured over eight repetitions",
 "Tests run each operation once and never look at memory.",
 ["spffl/polynomials/f2_poly_t.cpp", "spffl/polynomials/fp_poly_t.cpp", "spffl/polynomials/f2n_poly_t.cpp", "spffl/polynomials/fpn_poly_t.cpp", "spffl/polynomials/q_poly_t.cpp", "spffl/polynomials/f2_polymod_t.cpp", "spffl/polynomials/fp_polymod_t.cpp", "spffl/containers/tvector.h", "spffl/containers/tmatrix.h", "spffl/containers/tstack.h", "spffl/containers/tfacinfo.h", "spffl/containers/bit_vector_t.cpp", "spffl/containers/bit_matrix_t.cpp"],
 [("hand-written owning arrays and pointers with copy, assignment and resize", "polynomials/*.cpp, containers/*.h")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
