prop("C01", "Interval operations always enclose the exact result",
     "For every pair of intervals, integers or rationals and every precision, the interval returned by addition, "
     "subtraction, multiplication, negation, absolute value, squaring, union, floor, ceiling, precision conversion and "
     "construction contains every exact result over the operands. Its lower end never exceeds its upper end, neither end is a full unit in the "
     "last place away from the exact extreme, and no valid operand panics. Owned, borrowed and assigning forms and every integer and ratio operand type obey the same rule.",
     ["inputs"], "all intervals with arbitrary-size bounds, all precisions, all operand types and call forms",
     "tests sample a few dozen intervals and mostly compare single outputs; enclosure is a statement about all bound signs, "
     "magnitudes and precision differences, and there are about 570 operator impls",
     [IA], [("outward rounding in do_op_assign/do_*_assign and convert_log2_denom", IA)],
     technique="abstract interpretation of MIR with a relational polynomial/floor domain (all paths, generic interval)",
     note=INTERP)
prop("C02", "Interval division, reciprocal and square root enclose and refuse zero",
     "For every interval, reciprocal, division (by intervals, integers and rationals, including the exact-division forms) and square root "
     "return an interval that contains every exact result, within one unit in the last place for reciprocal, scalar division and square root. A divisor that is or "
     "contains zero is always refused (None, Err or panic according to the form) and is the only reason for refusing, and a refused in-place division leaves the receiver unchanged.",
     ["inputs"], "all intervals, divisors, precisions, operand types and call forms",
     "tests use a handful of positive divisors; sign combinations and near-zero or near-square bounds of unbounded size are not enumerable",
     [IA], [("checked_recip, do_sqrt, ExactDiv impls", IA)],
     technique="abstract interpretation of MIR with a relational polynomial/floor domain (all paths, generic interval)",
     note=INTERP)
prop("C03", "Integer powers of intervals enclose the exact power",
     "For every interval, every precision and every integer exponent, the power (owned or borrowed base, any exponent type) is an interval of the same precision whose lower end is at most, and upper end at least, "
     "every exact power of a value in the interval: for all sign combinations of the ends, even and odd exponents, point intervals, and negative exponents. The zeroth power is exactly one and the first is the interval itself; with no "
     "fraction bits the ends are exactly the extreme powers. A negative power of an interval that contains zero is refused by a panic, and nothing else is.",
     ["inputs"], "all intervals and precisions; each exponent of a list (quick: -17..100, thorough: -100..1000) in three exponent types",
     "rounding goes opposite ways for the two ends and flips with the signs of the ends, so errors appear only for some sign pattern when a rounding is inexact; tests use whole numbers",
     [IA], [("Pow<E> for DyadicFractionInterval", IA)],
     technique="abstract interpretation of MIR, exponent loop unrolled per exponent; nested floor terms relaxed monotonically to the exact power",
     note=INTERP + " Exponents outside the list are not covered.")
AN = "src/algebraic_numbers.rs"
RANI = ("abstract interpretation of MIR on a generic algebraic number (ghost real value, minimal polynomial, isolating interval), "
        "callees at their specifications, which are obligations of the same check")
RNOTE = INTERP + " The polynomial layer (factorization, resultant, Sturm sequence) is taken at its specification."
prop("C10", "Comparison, equality and sign of algebraic numbers are exact",
     "For every pair of real algebraic numbers, ==, !=, <, <=, >, >=, cmp and partial_cmp agree with the exact real order, no matter how "
     "wide or how close the isolating intervals are; equal values compare equal however they were computed. cmp_with_zero, is_zero, is_one, is_negative_one, is_positive, "
     "is_negative and signum give the exact sign or predicate. None of them panics. (Given that polynomial factorization and resultants are right.)",
     ["inputs"], "all pairs of real algebraic numbers of any degree, with any isolating interval",
     "numbers can be arbitrarily close and intervals arbitrarily shaped; tests compare a fixed list, and the stable suite does not run any algebraic-number test",
     [AN], [("cmp via subtraction and cmp_with_zero", AN), ("PartialEq on minimal polynomial and interval", AN)],
     technique=RANI, note=RNOTE)
prop("C11", "Integer parts, rational conversions and log2 of algebraic numbers are exact",
     "For every real algebraic number, floor, ceil, trunc and fract (owned, borrowed and integer-returning forms) return the exact rounded value, "
     "also for negative, integer and rational arguments and when the interval straddles an integer; is_rational, is_integer, to_rational and to_integer answer exactly; "
     "the floor and ceiling binary logarithm, of algebraic numbers and of every integer type, are exact for positive arguments and None otherwise, and to_integer_log2 answers exactly for powers of two.",
     ["inputs"], "all real algebraic numbers with any isolating interval; all integers of all types for the logarithms",
     "the boundary cases (integers, exact powers of two, intervals straddling an integer) are measure zero and tests pick a few; the stable suite runs no algebraic-number test",
     [AN, "src/traits.rs"], [("into_integer_floor, into_fract, to_rational, do_checked_floor_ceil_log2", AN), ("FloorLog2/CeilLog2", "src/traits.rs")],
     technique=RANI, note=RNOTE)
prop("C12", "Field operations on algebraic numbers return the exact number in canonical form",
     "For all real algebraic numbers, +, -, *, /, %, negation, recip, abs, abs_sub and exact division in every owned, borrowed and assigning form, and conversion from every "
     "integer and ratio type, return a number whose value is exactly the mathematical result; its minimal polynomial is the primitive one with positive leading coefficient and "
     "its interval contains the value. Division by zero is refused (None, Err or panic by form) and nothing else is. (Given that polynomial factorization and resultants are right.)",
     ["inputs"], "all pairs of real algebraic numbers of any degree, with any isolating interval, and all call forms",
     "the result depends on signs, rationality, zero and which root of the resultant is selected; tests multiply out a few tables and the stable suite runs no algebraic-number test",
     [AN], [("AddAssign/MulAssign via resultants and select_root; rational shortcuts; forwarding impls", AN)],
     technique=RANI, note=RNOTE)
prop("C13", "Powers and roots of algebraic numbers are exact or refused",
     "For every real algebraic number and every rational exponent, checked_pow and checked_into_pow return exactly the real power, the positive one for a positive base. "
     "The pow operator gives the same and panics where they return None. They return None exactly for zero to the zeroth or a negative power and for a negative base with an exponent that is not an integer; a negative base to an integer power has the sign of "
     "the exponent's parity. The type of the exponent (integer or ratio, owned or borrowed) makes no difference. (Given that factorization, resultants and the interval exp and log are right.)",
     ["inputs"], "all real algebraic bases, all rational exponents, six exponent types",
     "sign of base, parity of numerator and denominator and sign of exponent interact; tests list a few combinations and the stable suite does not run them",
     [AN], [("checked_pow_impl", AN)], technique=RANI, note=RNOTE)
prop("C14", "Root isolation keeps exactly the intended root",
     "Counting sign changes of a Sturm sequence at a value, at zero or at an infinity counts every sign change once, skips zeros and reports a root exactly when the polynomial vanishes. One refinement "
     "step keeps the isolated root inside the interval, never widens it, and at least shrinks it by an eighth or makes it exact; remembered sign counts always belong to the current bounds. "
     "Selecting a root from the factors of a resultant returns a factor only when exactly one root of all factors is left in the interval, and returns the factor that has it.",
     ["inputs", "histories"], "all Sturm sequences up to four members with every sign pattern; all intervals, cache states and up to three factors",
     "needs particular zero/sign patterns, bounds that are roots and cache histories that tests do not reach",
     [AN], [("sign_changes_at, IntervalShrinker::shrink, RootSelector::select_root", AN)],
     technique="abstract interpretation of MIR over all sign patterns and cache states (case-split abstract domain)", note=RNOTE)
MODS = "src/mod_int.rs"
prop("C20", "Modular arithmetic returns the canonical residue and refuses mixed moduli",
     "For every integer type, every modulus of at least one and all reduced operands, modular reduction, addition, subtraction, negation, multiplication and conversion from every "
     "integer type return the exact residue in the range from zero to the modulus (exclusive), with no overflow even at the limits of the type; modular powers with a non-negative exponent do too. Every operation of ModularInteger "
     "in every owned, borrowed, assigning and checked form agrees with these residues and keeps the modulus. Operands with different moduli are refused (None, Err or panic by form). "
     "Division and inversion are refused exactly when the divisor is not invertible, else their result times the divisor is the dividend. A refused in-place division leaves the receiver unchanged.",
     ["inputs"], "all values and moduli of 14 integer types up to the limits of each type, all moduli for the generic operations, all call forms; modular powers for a fixed list of exponents",
     "overflow in the widened intermediate, signed remainders and values next to the type's limits are a vanishing fraction of the inputs; tests run over small moduli of a few types",
     [MODS], [("ModularReduce and ModularReducePow impls; ModularInteger operators, checked_inverse, ExactDiv", MODS)],
     technique="abstract interpretation of MIR with range-checked fixed-width arithmetic and a relational floor domain (all paths, generic modulus)",
     note=INTERP + " Assumes a modulus of at least 1 and reduced operands; extended_gcd is taken at its Bezout specification; powers are decided per listed exponent.")
prop("C21", "The modulus types and their marker traits tell the truth",
     "Every static modulus type has, in each of its 14 value types and through each accessor, exactly the modulus its name says. A type marked odd has an odd modulus, a type marked prime has a prime one, and base_and_exponent "
     "gives a prime base whose power is the modulus. References and the KnownPrime and KnownOdd wrappers have the modulus of what they wrap and carry only the markers that they assert themselves or that the wrapped type carries; "
     "residues divide always-exactly only for moduli marked prime.",
     ["inputs"], "all static modulus types, value types, accessors and wrapper impls; any wrapped modulus type",
     "the markers have no run-time effect of their own: a wrong one only makes factorization and division wrong later; tests use three of the types with one value type",
     [MODS], [("impl_static_modulus!, KnownPrime, KnownOdd, AlwaysExactDiv impls", MODS)],
     technique="constant propagation through the type-checked impls, value-flow analysis of the wrappers and a trait-bound rule over all marker impls",
     note="Complete for the impls in the crate: every (type, value type, accessor) triple is evaluated by constant propagation on MIR. Trusts the models of the numeric conversions.")
TR = "src/traits.rs"
prop("C40", "Exact division and gcd helpers of integers and ratios are exact",
     "For every integer type and for ratios, exact division in every form (owned, borrowed, assigning, checked) returns a quotient whose product with the divisor is exactly the dividend. It refuses (None, Err or panic by form) "
     "exactly division by zero, inexact integer division and quotients that overflow, and a refused in-place division leaves the receiver unchanged. gcd, lcm and their combined and extended forms give, for integers and for "
     "ratios, the greatest common divisor (up to sign when one ratio is zero), the least common multiple, and cofactors that combine the operands to the divisor.",
     ["inputs"], "all operands of 14 integer types up to their limits and ratios over any integer type; all call forms",
     "overflowing, inexact and zero operands in each of 190 impls, and cofactor identities over all pairs, are far beyond the sampled cases",
     [TR], [("ExactDiv, ExactDivAssign, GCD, ExtendedGCD impls", TR)],
     technique="abstract interpretation of MIR with range-checked fixed-width arithmetic and a relational floor domain",
     note=INTERP + " num-integer's own gcd functions are taken at their specification.")
PO, PA, PM, PD = "src/polynomial.rs", "src/polynomial/add_sub.rs", "src/polynomial/mul.rs", "src/polynomial/div_rem.rs"
PNOTE = INTERP + " Decided per degree: generic coefficients and denominators, polynomials of up to 4 coefficients (6 in the thorough run)."
prop("C30", "Polynomial sums, products and powers are exact and normalized",
     "For polynomials with integer or rational coefficients, +, -, *, negation and powers, in every owned, borrowed, assigning and checked form and with a polynomial or a single coefficient on the right, "
     "give exactly the polynomial that algebra says, for every pair of lengths up to the bound, also where leading terms cancel, an operand is zero or the denominators differ. The result is always in normal form "
     "(no zero leading coefficient, the zero polynomial is empty with divisor one, elements and positive common divisor without a common factor), so equal polynomials compare equal. Zero, one and their tests, setters and defaults "
     "agree with that; zero to the zeroth power and negative powers panic.",
     ["inputs"], "all coefficients and denominators, all pairs of lengths up to the bound, exponents 0 to 7, all call forms",
     "cancellation of leading terms, unequal denominators and common factors need particular coefficients in particular positions; tests multiply a few fixed polynomials",
     [PA, PM], [("AddAssign/SubAssign, Mul, Pow, Neg, Zero, One impls", PA), ("Mul, Pow, One impls", PM), ("normalize, reduce_divisor", PO)],
     technique="abstract interpretation of MIR over generic coefficients (rational-function domain with gcd atoms), per pair of lengths", note=PNOTE)
prop("C31", "Polynomial access, conversion, iteration, evaluation and derivative are exact",
     "For polynomials with integer or rational coefficients, building one from a vector, slice, array, iterator, coefficient, monomial or split elements and divisor, and reading it back as coefficients, elements, length, degree, leading coefficient or iterator "
     "(from either end, owned or borrowed, with an exact size) keep every coefficient exactly and give the normal form. The derivative, the value at a point, the maximum and manhattan norms are exact in every form, also for "
     "constants and the zero polynomial; the one of a non-zero polynomial is one. The coefficient operations behind them (zero and one tests and setters, scaling, splitting and joining numerator and denominator) are exact for big integers, ratios and every signed integer type.",
     ["inputs"], "all coefficients and denominators, all lengths up to the bound (arrays up to 32), all call forms",
     "trailing zeros, zero polynomials, unequal denominators and both iteration ends interact; tests use one or two fixed polynomials",
     [PO], [("From impls, Iter, IntoIter, derivative, eval, norms, PolynomialCoefficient impls", PO)],
     technique="abstract interpretation of MIR over generic coefficients (rational-function domain with gcd atoms), per length", note=PNOTE)
PNOTE3 = INTERP + " Decided per pair of lengths: generic coefficients and denominators, polynomials of up to 3 coefficients (4 in the thorough run); modular powers for exponents 1 to 16."
prop("C32", "Polynomial division returns the exact quotient and remainder or refuses",
     "For polynomials with integer or rational coefficients, pseudo-division returns quotient, remainder and factor with factor times dividend equal to quotient times divisor plus remainder, and the remainder shorter than the divisor; "
     "with rational coefficients /, % and combined division satisfy the same identity without a factor. Exact division, by a polynomial or a coefficient, returns the quotient whose product with the divisor is the dividend. Every owned, borrowed, assigning and checked form "
     "agrees. A zero divisor and an inexact exact division are refused (None, Err or panic by form) and nothing else is; a refused in-place division by a coefficient leaves the receiver unchanged. A power modulo a polynomial with positive exponent is the remainder of the power.",
     ["inputs"], "all coefficients and denominators, all pairs of lengths up to the bound, all call forms",
     "needs dividends and divisors with unequal denominators, non-monic divisors, zero inner coefficients and failing coefficient divisions in each form; tests divide a few fixed polynomials",
     [PD], [("checked_pseudo_div_rem, checked_div_rem, checked_div_single, ExactDiv impls, checked_powmod", PD)],
     technique="abstract interpretation of MIR over generic coefficients (rational-function domain), per pair of lengths, coefficient division at its contract (C40)", note=PNOTE3)
prop("C33", "Content, primitive part, monic and reduced forms are exact",
     "For every polynomial with integer or rational coefficients up to the bound, the content is the greatest common divisor of the coefficients with the sign of the leading one; content times primitive part is the polynomial, and the primitive part "
     "has content one and a positive leading coefficient. Monic and reduced forms are the polynomial divided by its leading coefficient or reducing factor, and the reducing factor is what the form says it is. The zero polynomial is passed through (None or zero by form). Owned, borrowed and in-place forms agree.",
     ["inputs"], "all coefficients and denominators, all lengths up to the bound, all call forms",
     "zero inner coefficients, negative leading coefficients and common factors shared by only some coefficients need particular inputs; tests use a few fixed polynomials",
     [PO], [("nonzero_content, primitive_part, monic, nonzero_reduced forms", PO)],
     technique="abstract interpretation of MIR over generic coefficients (rational-function domain with gcd atoms), per length", note=PNOTE)
prop("C34", "Sturm sequences are signed remainder sequences up to positive factors",
     "For every polynomial with integer or rational coefficients up to the bound, each Sturm sequence method returns a sequence that starts with the polynomial and its derivative, up to a positive factor for the primitive variant, and in which each later "
     "member is a positive multiple of minus the remainder of the two before it, until the remainder is zero. The primitive variant's members have integer-primitive content. Owned and borrowed forms agree and nothing panics, also for zero and constant polynomials.",
     ["inputs"], "all coefficients, all lengths up to 4 (5 in the thorough run), every remainder of every length",
     "a wrong sign shows only for particular signs of leading coefficient, content and pseudo-division factor, and then makes root counts wrong silently; tests list a few sequences",
     [PO], [("into_sturm_sequence, to_sturm_sequence, primitive forms", PO)],
     technique="abstract interpretation of MIR with the remainder left free by its contract (C32), per length and remainder length", note=INTERP + " Lengths up to 4 (5 thorough).")
PG = "src/polynomial/gcd.rs"
prop("C35", "Polynomial resultants and greatest common divisors are exact",
     "For integer polynomials up to the bound, the resultant is the determinant of their Sylvester matrix, zero (or None) exactly where that is zero, and no intermediate division is inexact. The subresultant gcd divides both operands up to a constant factor and "
     "is divided by every common divisor. For rational polynomials, gcd, lcm and their combined and extended forms give a common divisor in reduced form, the product of the operands is gcd times lcm up to a constant factor, "
     "and the two cofactors combine the operands to the gcd, also where an operand is zero. Nothing panics.",
     ["inputs"], "all coefficients; pairs of lengths up to 5 with a sum up to 8 for the resultant (sparse ones up to length 8), common factors of up to 3 coefficients, up to 3 steps of Euclid's algorithm",
     "the remainder sequence drops more than one degree only for particular coefficients, and then other exponents, signs and exact divisions apply; tests use a few fixed polynomials",
     [PG], [("resultant, subresultant_gcd, GCD and ExtendedGCD impls", PG)],
     technique="abstract interpretation of MIR over generic coefficients (rational-function domain) per pair of lengths; Euclid's algorithm over polynomials as ring elements",
     note=INTERP + " Lengths as in the scope; the longer ones only where no coefficient cancels; (4,4) only sparse.")
PYS = "src/python.rs"
prop("C70", "Every Python method gives the exact Rust operation or its exception",
     "For all operands, each operator and method of the Python class gives what the Rust operation of that meaning gives: +, -, *, /, ** and their reflected forms with the operands in Python's order, all six comparisons, negation, abs, trunc, floor, ceil, "
     "conversions to integer and rational (None where there is none), rationality tests, reciprocal, base-2 logarithms, degree, and the coefficients of the minimal polynomial from the lowest power up. Numbers and Python integers convert to operands without change and "
     "anything else is refused; the constructor's default is zero. Division by zero raises ZeroDivisionError, undefined powers, irrational exponents and logarithms of non-positive numbers ValueError, a power with a modulus TypeError; nothing else is raised and nothing panics.",
     ["inputs"], "all operands, all 29 methods and conversions; minimal polynomials listed up to degree 3",
     "the Python layer has no tests at all and is not compiled by default; swapped operands and a wrong exception show only for particular operands",
     [PYS], [("RealAlgebraicNumberPy2, SharedNumber, try_arithmetic_helper", PYS)],
     technique="abstract interpretation of the type-checked bindings on generic algebraic numbers with the numbers' operations at their specifications (C10-C13)",
     note=INTERP + " pyo3's argument conversion and dispatch are taken as documented; the text of repr is not decided.")
prop("C04", "Cached constants are right at every precision after every request history",
     "For every precision up to the bound, natural_log_of_2 and sqrt_2 return an interval of exactly the requested precision that encloses the constant and whose numerators differ by at most two. This holds whatever precisions were requested before, in any order, "
     "and whatever other threads have read or published in between. Entries published to the shared cache are never dropped, and nothing panics.",
     ["inputs", "histories", "schedules"], "all precisions up to 700 bits (2600 thorough); any cache left by any history; any list published by other threads between the lock acquisitions of one request",
     "the cache outlives every call, so a wrong slot, a misnumbered entry or a lost race shows only after particular earlier requests; each test calls the functions with a few precisions in a fixed order",
     [IA], [("ConstantCache: slot choice, fill_cache, read_cache, write_cache", IA), ("natural_log_of_2, sqrt_2", IA)],
     technique="rely/guarantee typestate of the list behind the lock with abstract interpretation of MIR: interval analysis of the floating-point slot choice over precision ranges, constant propagation through the series",
     note="Exhaustive within the bound up to the modelled semantics: each precision range and each cache description is analysed on rustc's MIR, and the resulting terms are decided at each of their finitely many values. A misbehaviour only reachable from a general "
          "cache description and not from a cache the code itself publishes is reported as undecided. Trusts that log2 is monotone and the models of std and num items.")
prop("C05", "exp, log and arithmetic-geometric mean of intervals enclose the exact result",
     "For every interval and precision, exp, log (of intervals above zero) and arithmetic_geometric_mean return an interval of the same precision that contains every exact result over the operands, and a non-positive logarithm operand is refused.",
     ["inputs"], "all intervals and precisions",
     "enclosure is a statement about all operands; tests compare a few printed digits",
     [IA], [("exp, log, log_core, arithmetic_geometric_mean", IA)],
     na="The results are truncated series and iterations whose number of terms depends on the operand and whose tail has to be bounded by real analysis (exp(x) <= sum + x^n/n!, convergence of AGM); the domain of this analysis has no transcendental "
        "bounds, and widening the series loop loses the enclosure. The interval operations the series are made of are decided by C01 and C02, the constants by C04.")
prop("C36", "Factorization returns irreducible factors whose product is the polynomial",
     "For every integer polynomial, factor returns a constant and primitive irreducible factors with multiplicities whose product is the polynomial; the square-free, distinct-degree and same-degree steps over finite fields do the same.",
     ["inputs"], "all polynomials", "factor patterns modulo primes vary without bound; tests use a handful of polynomials",
     ["src/polynomial/factorization_over_integers.rs", "src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs"],
     [("factor, hensel lifting, lattice recombination", "src/polynomial/factorization_over_integers.rs")],
     na="Irreducibility of the output rests on number theory (Hensel lifting bounds, Mignotte's bound, lattice recombination, random splitting) over loops whose iteration counts depend on the operand's value; no domain here expresses it. "
        "The algebraic-number checks take factorization at this specification.")
prop("C37", "Lattice reduction returns a short basis of the same lattice",
     "lll_reduce returns a basis that spans the same lattice as its input and is LLL-reduced for the given parameter.",
     ["inputs"], "all bases", "swap sequences depend on the values; tests reduce a few matrices", ["src/lattice.rs"], [("LLL", "src/lattice.rs")],
     na="The Lovasz condition and the exchange loop are relations between runtime Gram-Schmidt values that the loop re-establishes only through termination; a static invariant for the spanned lattice would need an unimodular-transform domain that is not built here. Crate-private.")
prop("C50", "Prime helpers enumerate exactly the primes",
     "The crate's internal prime iterator and next_prime return exactly the primes in increasing order.",
     ["inputs"], "all 32-bit numbers", "tests look at a prefix", ["src/util.rs"], [("next_prime, is_prime tables", "src/util.rs")],
     na="Primality of a runtime number is decided by a table lookup and trial loops over values; showing it statically means evaluating the table (running it). Crate-private. One defect found by reading was repaired (see known_findings.txt).")
prop("C60", "Array2D slices address exactly their sub-rectangle",
     "Every view of a two-dimensional array addresses exactly the elements of its sub-rectangle, within bounds, and two mutable views never overlap.",
     ["inputs"], "all shapes and positions", "tests use a few shapes", ["src/array2d.rs"], [("Array2DSlice index computation", "src/array2d.rs")],
     na="The container is crate-private and reached only from lattice reduction (C37); its accessors are generic over runtime shape and stride types that this analysis does not resolve. One defect found by reading was repaired (see known_findings.txt).")
