import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":n,"where":files[0]} for n in state]
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]="--cfg algebraics_verif: crate-private items are re-exported for the harness"
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
AN="src/algebraic_numbers.rs"; IV="src/interval_arithmetic.rs"; PO="src/polynomial.rs"
p("A01","Sums, differences, products and negation of real algebraic numbers are exact",
 "For all real algebraic numbers a and b, however they were obtained, a+b, a-b, a*b and -a denote exactly the mathematical result, in every operand form (by value, by reference, assigning). In particular, of all the real roots of the result polynomial, the one selected is the right one. The operations terminate without panicking.",
 ["inputs","programs"],"all pairs of representable real algebraic numbers and all finite programs of additions, subtractions, multiplications and negations over them",
 "tests sample a few fixed pairs; a wrong root or a lost factor shows only for particular coincidences (a conjugate on an interval bound, reducible resultants, cancellation to a smaller field)",
 [AN],[("AddAssign/SubAssign/MulAssign","src/algebraic_numbers.rs impl AddAssign .. MulAssign"),("root selection among resultant factors","src/algebraic_numbers.rs RootSelector::select_root"),("interval refinement","src/algebraic_numbers.rs IntervalShrinker::shrink")],
 obs="minimal_polynomial() and interval() of the result")
p("A02","Reciprocal and division of real algebraic numbers are exact, by zero refused",
 "For every real algebraic number a and every non-zero b, 1/b and a/b denote exactly the mathematical quotient in every operand form. The checked forms report failure exactly when the divisor is zero and the unchecked forms panic then; nothing else fails.",
 ["inputs","programs"],"all pairs of representable real algebraic numbers, all spellings of reciprocal and division, and programs that mix them with the other operations",
 "the right reciprocal depends on which root of the reversed polynomial lies in the reciprocal interval, for intervals touching zero or holding conjugates",
 [AN],[("checked_recip","src/algebraic_numbers.rs RealAlgebraicNumber::checked_recip"),("ExactDivAssign/DivAssign","src/algebraic_numbers.rs impl ExactDivAssign, Div, DivAssign"),("zero removal","src/algebraic_numbers.rs remove_zero_from_interval")])
p("A03","Every number is kept as its minimal polynomial and an isolating interval",
 "Every real algebraic number returned by any operation is represented by a polynomial that is irreducible over the rationals, primitive, and has a positive leading coefficient, and by an interval that contains exactly one of its real roots: the value. Reported degree, rationality, integrality and conversion to a rational or integer agree with that representation.",
 ["inputs","programs"],"all results of all finite programs over the public operations, starting from integers, rationals and roots",
 "an extra factor, a missing normalisation or an interval that holds two roots is invisible in ordinary comparisons until a later operation picks the wrong root",
 [AN,"src/polynomial/factorization_over_integers.rs"],[("new_unchecked callers","src/algebraic_numbers.rs select_root, neg, From impls"),("factorization","src/polynomial/factorization_over_integers.rs factor")],
 state=["minimal polynomial","isolating interval"])
p("A04","Equality, ordering and sign of real algebraic numbers are exact",
 "Comparison of any two real algebraic numbers agrees with the order of the real numbers they denote, whatever intervals they carry: equal values compare equal, and arbitrarily close distinct values do not. Sign tests, absolute value, signum, positive difference and zero/one tests agree with that order, and comparing never changes a value.",
 ["inputs","programs"],"all pairs of numbers, including equal values reached by different computations and distinct values separated by less than any fixed precision",
 "needs pairs that differ by less than the interval widths, equal values with different intervals, and conjugates sharing a polynomial",
 [AN],[("PartialEq/Ord","src/algebraic_numbers.rs impl PartialEq, Ord for RealAlgebraicNumber"),("cmp_with_zero","src/algebraic_numbers.rs cmp_with_zero"),("Signed","src/algebraic_numbers.rs impl Signed")])
p("A05","Floor, ceiling, truncation, fraction and remainder are exact",
 "For every real algebraic number x, the floor is the greatest integer not above x, the ceiling the least integer not below it, truncation rounds towards zero and the fraction is x minus its floor. For every y other than zero the remainder x % y is x - y*trunc(x/y), and zero is refused.",
 ["inputs"],"all real algebraic numbers: rational and irrational, both signs, arbitrarily close to integers, with arbitrary isolating intervals",
 "the interesting inputs are irrationals within 2^-n of an integer and isolating intervals that straddle or touch integers",
 [AN],[("into_integer_floor/ceil/trunc/fract","src/algebraic_numbers.rs into_integer_floor .. trunc"),("Rem/RemAssign","src/algebraic_numbers.rs impl RemAssign")])
p("A06","Rational powers and roots of real algebraic numbers are exact",
 "For every base and rational exponent for which the real power is defined (positive base, zero base with positive exponent, or negative base with integer exponent) the power is exactly the mathematical value, the non-negative real one for roots of positive numbers. Exactly in the other cases (zero to a non-positive power other than those, negative base with a non-integer exponent) it reports failure. It terminates.",
 ["inputs"],"all bases and all rational exponents of moderate size, given as integers, ratios or pairs",
 "the root is selected through exp(log) enclosures; conjugates, exact powers and reducible resultants make the wrong root or non-termination possible for particular inputs only",
 [AN,IV],[("checked_pow_impl","src/algebraic_numbers.rs checked_pow_impl"),("PowRootSelector","src/algebraic_numbers.rs PowRootSelector::get_interval"),("exp/log","src/interval_arithmetic.rs log, into_exp")])
p("A07","Conversions and binary logarithms of real algebraic numbers are exact",
 "Converting any machine or big integer or ratio of them to a real algebraic number preserves its value, and converting back yields it. For every positive number the floor and ceiling of the binary logarithm are exact, the exact binary logarithm is reported exactly for the integral powers of two, and all report failure for non-positive numbers.",
 ["inputs"],"all values of all integer widths and ratios of them; all positive algebraic numbers including those extremely close to a power of two",
 "extreme widths and values next to powers of two are not sampled",
 [AN,"src/traits.rs"],[("From impls","src/algebraic_numbers.rs impl_from_int_or_ratio"),("log2","src/algebraic_numbers.rs to_integer_log2, do_checked_floor_ceil_log2"),("interval log2","src/interval_arithmetic.rs floor_log2, ceil_log2")])
p("I01","Interval arithmetic encloses every exact result",
 "For all intervals and all exact values inside them, the sum, difference, product, quotient, negation, square, reciprocal and integer power of the values lie inside the interval returned, for interval, integer and rational right-hand operands of any precision and in every operand form. The returned bounds have the larger of the operand precisions, are in order and, for everything but quotients by intervals and powers, are the tightest such dyadic bounds. Division by an interval containing zero is refused.",
 ["inputs","programs"],"all dyadic intervals of any size, sign pattern and mix of precisions, all integers, rationals and exponents",
 "rounding in the wrong direction shows only for particular sign patterns, precisions and non-representable bounds",
 [IV],[("field operations","src/interval_arithmetic.rs do_add_assign .. do_div_assign, checked_recip, into_square"),("Pow","src/interval_arithmetic.rs impl Pow<E>"),("outward rounding","src/interval_arithmetic.rs convert_log2_denom_floor/ceil")])
p("I02","Square root, mean, exp and log enclosures are sound and sharp",
 "For all intervals, the square root, arithmetic-geometric mean, exponential and natural logarithm of every value in the interval lie inside the returned interval, whose precision is that of the operands. For a single representable point (for the mean, two points of comparable size) the returned interval is only a few units of the last place wide, so refining the input refines the output. Arguments outside the domain are refused.",
 ["inputs"],"all intervals in the domain: tiny, huge, negative, near domain edges, and all precisions",
 "error accumulates over an input-dependent number of iterations and argument reductions, so unsoundness shows for rare arguments and precisions only",
 [IV],[("sqrt","src/interval_arithmetic.rs do_sqrt/into_sqrt"),("AGM","src/interval_arithmetic.rs into_arithmetic_geometric_mean"),("log","src/interval_arithmetic.rs log_core, log"),("exp","src/interval_arithmetic.rs into_exp")])
p("I03","Interval construction, conversion, hull and rounding are exact or outward",
 "Building an interval from integers, ratios or a range at any precision, changing its precision, taking absolute value, hull with another interval or value, floor or ceiling to a precision, and reading its bounds never lose a contained value and give the tightest bounds at that precision. Every interval stays in order; a mutation that would put the bounds out of order is refused and the other mutators set exactly what they say.",
 ["inputs","histories"],"all intervals, precisions in both directions, ratios with any denominator and all sequences of in-place mutators",
 "directional rounding errors appear only for negative or non-representable bounds when precision is lowered",
 [IV],[("constructors","src/interval_arithmetic.rs from_ratio_range, from_ratio, from_int, from_dyadic_fraction"),("convert_log2_denom","src/interval_arithmetic.rs convert_log2_denom"),("union, abs, floor, ceil","src/interval_arithmetic.rs do_interval_union_assign, abs_assign, floor_assign, ceil_assign")])
p("I04","Cached constants are right for every order and interleaving of requests",
 "Whatever precisions were requested before, in whatever order and by however many concurrent threads, a request for the square root of two or the natural logarithm of two at some precision returns an interval of exactly that precision that contains the constant and is no wider than a few units. Requests never deadlock, and a shared cache never returns an entry of lower precision than required.",
 ["schedules","histories"],"all finite histories of precision requests by several threads and all interleavings of the cache's read, compute and write steps",
 "cache contents depend on request history and thread timing; tests call each constant with increasing precision from a single thread",
 [IV],[("ConstantCache","src/interval_arithmetic.rs ConstantCache::{read_cache,fill_cache,write_cache,get}"),("constants","src/interval_arithmetic.rs sqrt_2, natural_log_of_2")],
 state=["cache: list of enclosures of increasing precision"],hook=True)
PA=[PO,"src/polynomial/add_sub.rs","src/polynomial/mul.rs"]
p("P01","Polynomial addition, subtraction and multiplication obey the ring laws exactly",
 "For all polynomials over the supported coefficient kinds (machine and big integers, ratios, residues, nested polynomials), sum, difference, product, negation and the mixed operations with a scalar have exactly the coefficients of the mathematical result, in every operand form. Every result is in canonical form - no trailing zero coefficient and, for ratios, one reduced common denominator - so that equal polynomials always compare equal.",
 ["inputs","programs"],"all polynomials, scalars, coefficient kinds and operand forms, and programs chaining them",
 "cancellation of leading terms and common denominators for particular operands and forms break canonical form without being visible in the printed value",
 PA,[("add/sub","src/polynomial/add_sub.rs"),("mul","src/polynomial/mul.rs"),("common denominators and normalisation","src/polynomial.rs PolynomialCoefficient impls, normalize")])
p("P02","Polynomial division identities hold and impossible divisions are refused",
 "For every dividend and non-zero divisor, quotient and remainder satisfy dividend = divisor*quotient + remainder with a remainder of smaller degree over fields; pseudo-division satisfies the same identity with the documented leading-coefficient power; exact division returns the quotient exactly when it exists. Checked forms report failure exactly when the division is impossible and then leave their operand unchanged; dividing by the zero polynomial, and dividing a non-zero polynomial by a zero scalar, is always refused.",
 ["inputs"],"all dividends, divisors, scalars and coefficient kinds, including divisors of larger degree, constant and zero divisors",
 "sparse dividends with gaps, non-monic divisors and inexact scalar divisions need particular inputs",
 [PO,"src/polynomial/div_rem.rs"],[("pseudo division","src/polynomial/div_rem.rs checked_pseudo_div_rem, exact_pseudo_div"),("field division","src/polynomial/div_rem.rs checked_div_rem, Div, Rem"),("scalar division","src/polynomial/div_rem.rs ExactDiv/Div by scalar")])
p("P03","Polynomial gcd, lcm and extended gcd are correct",
 "For all polynomials over rationals and prime fields, the gcd divides both arguments, every common divisor divides it and it is monic; gcd*lcm is the product of the arguments, and the extended gcd's Bezout identity holds. The subresultant gcd, also over the integers, is a greatest common divisor up to a constant factor. Zero arguments behave as the identity.",
 ["inputs"],"all pairs of polynomials: coprime, sharing factors of any multiplicity and content, of very different degree, zero and constant",
 "subresultant bookkeeping goes wrong only for remainder sequences with degree jumps or negative leading coefficients",
 ["src/polynomial/gcd.rs"],[("subresultant_gcd","src/polynomial/gcd.rs"),("GCD/ExtendedGCD","src/polynomial/gcd.rs impl GCD, ExtendedGCD")])
p("P04","Content, primitive part, monic form, reduction and norms are exact",
 "For every polynomial, content times primitive part is the polynomial, the primitive part has coprime coefficients and positive leading coefficient; monic form divides by the leading coefficient; reduction yields the associated canonical polynomial and its factor; the norms are the maximum and the sum of the absolute coefficients. Coefficient access, degree, iteration and conversion to and from coefficient lists agree with the polynomial.",
 ["inputs"],"all polynomials over integers, ratios and fields, including zero, constants and negative leading coefficients",
 "signs and common denominators interact for particular inputs only",
 [PO],[("content/primitive_part","src/polynomial.rs"),("monic, reduce","src/polynomial.rs"),("norms","src/polynomial.rs max_norm, manhattan_norm")])
p("P05","The resultant of two polynomials is the Sylvester determinant",
 "For all polynomials over the integers, rationals, and polynomials over integers, the resultant equals the determinant of their Sylvester matrix, sign included, in every operand form; it is zero exactly when they have a common factor or one of them is zero.",
 ["inputs"],"all pairs of polynomials of any degrees, including constants, zero, degree jumps in the remainder sequence and negative leading coefficients",
 "sign and power-of-leading-coefficient errors occur only for particular degree parities and jumps",
 ["src/polynomial/gcd.rs"],[("resultant","src/polynomial/gcd.rs nonzero_resultant, resultant")])
p("P06","Sturm sequences count the distinct real roots in every interval",
 "For every non-zero polynomial, the Sturm sequence starts with the polynomial and its derivative, each further member is minus the remainder of the two before it, it ends in their common divisor (all up to positive constant factors), and the difference of sign variations at any two points that are not roots is the number of distinct real roots between them.",
 ["inputs"],"all non-zero polynomials, with and without multiple roots, and all pairs of points",
 "a wrong sign of one chain member changes counts only for certain polynomials and points",
 [PO],[("sturm sequences","src/polynomial.rs to_sturm_sequence, into_primitive_sturm_sequence")])
p("P07","Square-free factorization recomposes and its parts are square-free",
 "For every non-zero polynomial over the rationals, the factors listed by multiplicity are square-free and pairwise coprime, and the constant times the product of each raised to its multiplicity is the polynomial; over rationals and prime fields the square-free test is true exactly when no repeated factor exists.",
 ["inputs"],"all non-zero polynomials with any pattern of multiplicities, including gaps in the multiplicities",
 "needs particular multiplicity patterns",
 [PO],[("Yun's algorithm","src/polynomial.rs square_free_factorization_using_yuns_algorithm"),("is_square_free","src/polynomial.rs")])
p("P08","Factorization over the integers is complete and recomposes exactly",
 "For every integer polynomial the returned constant factor and polynomial factors with their powers multiply back to it; every polynomial factor is irreducible over the rationals, primitive with positive leading coefficient, and no factor is listed twice. Factorization terminates without panicking and gives the same factors every time.",
 ["inputs"],"all integer polynomials, including those that split completely modulo every prime, have huge coefficients, contents, repeated factors or non-monic factors",
 "recombination, lifting bounds and unlucky primes matter for particular polynomials only",
 ["src/polynomial/factorization_over_integers.rs","src/polynomial/distinct_degree_factorization.rs","src/polynomial/same_degree_factorization.rs","src/lattice.rs"],[("factor","src/polynomial/factorization_over_integers.rs factor"),("Hensel lifting","src/polynomial/factorization_over_integers.rs hensel_lift_step"),("recombination of modular factors","src/polynomial/factorization_over_integers.rs subset search")])
p("P09","Evaluation, derivative, powers and modular powers of polynomials are exact",
 "For every polynomial p, point x and exponent n, evaluation gives the value of p at x, the derivative is the formal derivative, p to the n is the n-fold product, and the modular power is the remainder of the n-fold product by the modulus polynomial, with the zeroth power reduced as well. A zero modulus is refused.",
 ["inputs"],"all polynomials, points, moduli and exponents including 0 and 1",
 "exponent bit patterns, constant moduli and zero polynomials are special cases that samples miss",
 [PO,"src/polynomial/div_rem.rs","src/polynomial/mul.rs"],[("eval","src/polynomial.rs eval, eval_generic"),("derivative","src/polynomial.rs derivative"),("powmod","src/polynomial/div_rem.rs powmod"),("pow","src/polynomial/mul.rs impl Pow")])
p("P10","Printed polynomials denote the polynomial",
 "For every polynomial over integers, ratios or nested polynomials, the displayed text, read as an expression in its variable, has exactly the value of the polynomial, and distinct polynomials never print the same.",
 ["inputs"],"all polynomials: zero, units, negative and fractional coefficients, gaps",
 "sign and unit-coefficient elision combine in many ways",
 [PO],[("Display","src/polynomial.rs impl fmt::Display")])
M="src/mod_int.rs"
p("M01","Modular integers form the ring of residues with canonical representatives",
 "For every integer width and modulus, building a modular integer from any integer and adding, subtracting, multiplying or negating gives the least non-negative residue of the mathematical result, without overflow even for moduli next to the width's limit. Equal residues compare equal; combining different moduli is refused.",
 ["inputs","programs"],"all widths, moduli, residues and operand forms",
 "overflow shows only for moduli close to the limit of the width",
 [M],[("ModularReduce","src/mod_int.rs trait ModularReduce impls"),("Add/Sub/Mul/Neg","src/mod_int.rs impl ops for ModularInteger")])
p("M02","Modular inverses, quotients and powers are exact",
 "For every modular integer, an inverse is reported exactly when the value is non-zero and coprime to the modulus, and their product is one; division and exact division invert multiplication and refuse non-invertible divisors; the n-th power is the n-fold product for every n, with the zeroth power being one reduced by the modulus.",
 ["inputs"],"all widths, moduli (prime, composite, 1, powers of two), values and exponents",
 "non-coprime divisors with composite moduli, huge exponents and extreme moduli are not sampled",
 [M],[("inverse/div","src/mod_int.rs checked_inverse, ExactDiv, Div"),("pow","src/mod_int.rs pow_modular_reduce, Pow")])
p("F01","Factorization over prime fields is complete",
 "For every monic square-free polynomial over a prime field, distinct-degree factorization returns for each degree the product of its irreducible factors of that degree, and equal-degree factorization of such a product returns exactly the irreducible factors, for every random choice.",
 ["inputs","schedules"],"all primes of moderate size, all square-free monic polynomials over them, all random seeds",
 "results depend on random choices and on the splitting pattern",
 ["src/polynomial/distinct_degree_factorization.rs","src/polynomial/same_degree_factorization.rs"],[("distinct_degree_factorization","src/polynomial/distinct_degree_factorization.rs"),("same_degree_factorization","src/polynomial/same_degree_factorization.rs")],hook=True)
T="src/traits.rs"
p("T01","Integer helper operations are exact over every width",
 "For every machine and big integer type and ratio, whenever the result fits the type, gcd and lcm are the non-negative greatest common divisor and least common multiple (of a ratio and zero: that ratio up to sign), the extended gcd satisfies its Bezout identity, floor and ceiling binary logarithms and trailing zero counts are exact and absent exactly where undefined, and exact division returns the quotient exactly when the divisor is non-zero and divides.",
 ["inputs"],"all values of all widths including the extreme ones whose result is representable",
 "extreme values of each width and the sign combinations are not sampled",
 [T],[("GCD/ExtendedGCD","src/traits.rs"),("FloorLog2/CeilLog2/TrailingZeros","src/traits.rs"),("ExactDiv","src/traits.rs")])
p("T02","Division to the nearest quotient is exact over every width",
 "For every machine and big integer type, nearest-quotient division of any dividend by any non-zero divisor returns the integer nearest to the exact quotient (halves towards zero) and the remainder that makes dividend = divisor * quotient + remainder; for unsigned types, whose remainder cannot be negative, the quotient is rounded down; for ratios the quotient is exact and the remainder zero. Failure is reported exactly for a zero divisor and a quotient that does not fit the type.",
 ["inputs"],"all pairs of values of all widths, including the extreme values and ties of both signs",
 "the correction of the truncated quotient depends on the signs of both operands and on ties at the extreme value of the type",
 [T],[("DivRemNearest","src/traits.rs trait DivRemNearest and its impls")],hook=True)
p("U01","Primality, prime search and subset enumeration are exact",
 "For every 32-bit integer the primality answer is right, and the next and previous prime are the adjacent primes, absent exactly when there is none in range. Enumeration of fixed-size index subsets visits each subset exactly once in lexicographic order and stops when told.",
 ["inputs"],"all machine-word integers and all subset sizes and ranges",
 "strong pseudoprimes and segment edges are rare",
 ["src/util.rs"],[("primes","src/util.rs is_prime, next_prime_u32/i32, prev_prime_u32/i32"),("for_subsets_of_size","src/util.rs")],hook=True)
p("Q01","Quadratic numbers are canonical and exactly ordered",
 "Every number built from the terms of an integer polynomial of degree one or two with a real root is the root named by the terms, kept in its one canonical form (lowest terms, positive denominator, a rational root as a ratio); exactly the other terms are refused. The sum or difference of such a number and a rational, the negation, the absolute value, the sign and the reciprocal of a rational are exact and canonical, zero has no reciprocal. Equality, order and sign, against each other and against rationals, agree with the real numbers denoted. (Sums of two irrational numbers and products are not offered yet.)",
 ["inputs","programs"],"all integer terms of any size and sign, all pairs of numbers including conjugates and numbers closer than any fixed precision, all ratios on either side of the root and the vertex",
 "the order is decided by squaring twice with sign conditions in four cases; a slip shows only for particular sign patterns and nearly equal numbers",
 ["src/quadratic_numbers.rs"],[("into_reduced/new","src/quadratic_numbers.rs RealQuadraticNumber::new, into_reduced"),("order","src/quadratic_numbers.rs quadratic_less_than, PartialOrd<BigRational>"),("arithmetic","src/quadratic_numbers.rs checked_add, checked_sub, checked_recip, Neg, Signed")],hook=True)
p("L01","Lattice reduction returns a reduced basis of the same lattice",
 "For every list of linearly independent integer vectors, lattice reduction returns a basis that spans exactly the same lattice, is size-reduced and satisfies the Lovasz condition for the requested parameter; Gram-Schmidt vectors are pairwise orthogonal with the same leading spans. Reduction terminates.",
 ["inputs"],"all independent integer bases of any dimension and all parameters in (1/4, 1)",
 "intermediate updates of the orthogonalisation go wrong only for certain swap and reduction sequences",
 ["src/lattice.rs"],[("lll_reduce_with_delta","src/lattice.rs"),("gram_schmidt","src/lattice.rs")],hook=True)
p("D01","The two-dimensional array behaves as a function from positions to values",
 "For every history of constructions, reads, writes, swaps, sub-rectangle views and double-ended iteration, a two-dimensional array behaves as the mathematical map from positions to values; out-of-range positions and ranges are refused; iteration of every kind (shared, mutable, consuming, with or without positions) visits each position of the rectangle exactly once with its coordinates, and the text shows every value in its row and column.",
 ["histories","inputs"],"all sizes including empty ones, all sub-rectangles and all interleavings of front and back iteration",
 "stride arithmetic of nested views and mixed front/back iteration have many combinations",
 ["src/array2d.rs"],[("Array2D slices","src/array2d.rs"),("iterators","src/array2d.rs")],hook=True)
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
