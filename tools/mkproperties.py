#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One P(...) call per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext},
                "why_tests_cant": why, "anchors": a})

C = "src/carl/"
PF = C + "core/polynomialfunctions/"

P("C01", "Monomials are canonical and their algebra is exact",
  "However two monomials were obtained (from variables, exponent lists, products, quotients, gcd, lcm, powers, square roots, dropping a variable, separable part), they are equal, and share hash and identity, exactly when they denote the same product of variable powers. Every one of these operations returns the mathematically right monomial or reports that none exists, and reports degree, total degree, variables and predicates of that product; the same holds for terms, a monomial with a coefficient. This stays so after any interleaving of creating and releasing other monomials.",
  ["inputs", "histories"],
  "all exponent vectors over any number of variables; all sequences of creating, combining and dropping monomials, including drops followed by re-creation and pool growth",
  "Unit tests check a few fixed products of two or three variables in a fresh pool; they never release and re-create, and never compare one value reached by different operations.",
  [C+"core/Monomial.h", C+"core/Monomial.cpp", C+"core/MonomialPool.h", C+"core/MonomialPool.cpp", PF+"SeparablePart.h"],
  [("hash-consing pool of live monomials", "core/MonomialPool.cpp: MonomialPool::add/create/free"),
   ("merge of sorted exponent lists", "core/Monomial.cpp: operator*, divide, gcd, lcm, calcLcmAndDivideBy, dropVariable, sqrt, pow")],
  [("live monomials", "the set of monomials that are reachable, each with one id")],
  ["exponents, tDeg, id, hash, ==, divide result"])

P("C02", "Monomial and term orders are total, consistent and multiplicative",
  "Each offered monomial order compares any two monomials (and terms, and a monomial with a variable or the unit) as exactly one of less, equal, greater; the comparison is antisymmetric and transitive, equal only for equal monomials, and every overload, comparator and operator of the same order agrees. The graded order is multiplicative: multiplying both sides by a monomial keeps the result, and the unit is below every other monomial.",
  ["inputs"],
  "all pairs and triples of monomials and terms over all variables, through every comparison entry point",
  "Tests compare a handful of fixed pairs; totality, transitivity and multiplicativity quantify over all triples.",
  [C+"core/Monomial.h", C+"core/Monomial.cpp", C+"core/MonomialOrdering.h", C+"core/Term.h", C+"core/CompareResult.h"],
  [("lexicographic and graded comparison", "core/Monomial.cpp/.h: lexicalCompare, compareGradedLexical, operator<"),
   ("ordering classes used as template policies", "core/MonomialOrdering.h: MonomialComparator::compare/less/equal")])

P("C03", "Polynomial arithmetic is exact ring arithmetic for every operand kind",
  "Sums, differences, products, negation, powers, scalings and in-place variants of multivariate polynomials with rational coefficients equal the mathematical result for every mix of operand kinds (polynomial, term, monomial, variable, number, in either position, aliased or not). Results never contain a zero coefficient or a repeated monomial. Sequences of such operations on shared objects keep all other objects unchanged.",
  ["inputs", "histories"],
  "all polynomials (any number of variables, terms, coefficient size) and all sequences of arithmetic operations, including self-aliasing and cancellation to zero",
  "Tests use a few small polynomials per operator; most overload/operand-kind/cancellation combinations and all long operation sequences are never reached.",
  [C+"core/MultivariatePolynomial.h", C+"core/MultivariatePolynomial.tpp", C+"core/MultivariatePolynomial_operators.h", C+"core/Term.h", C+"core/Term.tpp", C+"util/TermAdditionManager.h", PF+"Power.h"],
  [("term accumulation by monomial id", "util/TermAdditionManager.h"),
   ("in-place operators with ordered/unordered term lists", "core/MultivariatePolynomial.tpp: operator+=, -=, *=, subtractProduct, addTerm"),
   ("mixed-operand operators", "core/MultivariatePolynomial_operators.h")],
  [("registers", "a set of polynomial objects; one operation changes at most its target")],
  ["terms of every object after every operation"])

P("C04", "Polynomial identity, order and views do not depend on construction history",
  "Two multivariate polynomials denoting the same function compare equal and hash equal however they were built and whether or not their terms are currently sorted, and different ones compare unequal. The comparison operators between polynomials and other operand kinds form a strict total order consistent with equality, and leading term, trailing term, constant part, term count, degree and classification predicates report the properties of the function denoted.",
  ["inputs", "histories"],
  "all polynomials and all construction and operation histories leading to them",
  "Lazily sorted terms make equality, hash and leading term depend on history; tests query freshly built polynomials only.",
  [C+"core/MultivariatePolynomial.h", C+"core/MultivariatePolynomial.tpp", C+"core/MultivariatePolynomial_operators.h", PF+"Degree.h"],
  [("lazy ordering of terms", "core/MultivariatePolynomial.tpp: makeOrdered, makeMinimallyOrdered, isConsistent"),
   ("comparison overloads", "core/MultivariatePolynomial_operators.h")])

P("C05", "Substitution, evaluation and derivatives agree with polynomial semantics",
  "Substituting numbers or polynomials for variables, in place or not, one at a time or simultaneously, evaluating under a complete assignment, differentiating any number of times, extracting coefficients and degrees, and converting between multivariate and univariate views all give exactly the polynomial that the mathematical definition prescribes. Consequently substitution commutes with arithmetic and the Leibniz rule holds.",
  ["inputs"],
  "all polynomials, all variables (present or not), all numeric and polynomial replacements including zero and replacements that mention the replaced variable",
  "Tests fix one or two polynomials per overload; the agreement must hold for every polynomial and every map.",
  [PF+"Substitution.h", PF+"Evaluation.h", PF+"Derivative.h", PF+"Degree.h", PF+"to_univariate_polynomial.h", C+"core/VariableInformation.h"],
  [("substitution overloads", "polynomialfunctions/Substitution.h"), ("derivative", "polynomialfunctions/Derivative.h"),
   ("coefficient extraction", "core/MultivariatePolynomial.tpp: coeff, lcoeff, getVarInfo")])

P("C06", "Multivariate division, remainders and S-polynomials satisfy their identities",
  "Exact division of polynomials succeeds exactly when the divisor divides the dividend and then returns the quotient; division with remainder, quotient, remainder and pseudo-remainder satisfy dividend = quotient * divisor + remainder (up to the leading-coefficient power) with an irreducible remainder of the prescribed degree. S-polynomials cancel the leading terms, and normalisation, primitive part, coprime coefficients and content return the associate with the documented normal form.",
  ["inputs"],
  "all pairs of polynomials with non-zero divisor, including non-divisible pairs, constants and large coefficients",
  "Tests divide a few hand-made products; failure paths and non-exact pairs are hardly sampled.",
  [PF+"Division.h", PF+"Quotient.h", PF+"Remainder.h", PF+"SPolynomial.h", PF+"Content.h", PF+"PrimitivePart.h", PF+"CoprimePart.h"],
  [("leading-term division loop", "polynomialfunctions/Division.h"), ("pseudo division", "polynomialfunctions/Remainder.h"),
   ("coprime factor", "core/MultivariatePolynomial.tpp: coprimeFactor, coprimeCoefficients")])

P("C07", "Univariate polynomials form an exact Euclidean ring",
  "Construction, arithmetic, evaluation, derivative, scaling, reversal and comparison of univariate polynomials over integers, rationals and polynomials give the exact mathematical result without superfluous leading zeros. Over the rationals division with remainder satisfies its identity with smaller remainder degree, and gcd and extended gcd return a greatest common divisor with valid cofactors.",
  ["inputs", "histories"],
  "all coefficient vectors, degrees and operand kinds, and all sequences of in-place operations including cancellation to zero",
  "Tests cover a few fixed low-degree polynomials; degree gaps, zero results and mixed operands are not sampled.",
  [C+"core/UnivariatePolynomial.h", C+"core/UnivariatePolynomial.tpp", PF+"GCD_univariate.h", PF+"Division.h", PF+"Remainder.h", PF+"Power.h"],
  [("dense coefficient vector arithmetic", "core/UnivariatePolynomial.tpp"), ("Euclidean algorithm", "polynomialfunctions/GCD_univariate.h")])

P("C08", "Resultants, subresultants and discriminants equal their determinants",
  "For two univariate polynomials of positive degree over a polynomial ring, the resultant equals the Sylvester determinant up to sign, so it vanishes exactly when the inputs share a non-constant factor, and this holds for every selectable algorithm. The subresultants and principal subresultant coefficients equal their determinants up to sign, and the discriminant equals its determinant up to a non-zero constant factor.",
  ["inputs", "configurations"],
  "all pairs of polynomials of positive degree, all offered subresultant strategies, zero and non-zero resultants",
  "Tests compare a few fixed values; agreement between strategies and vanishing on common factors must hold for all inputs.",
  [PF+"Resultant.h"],
  [("subresultant chain variants", "polynomialfunctions/Resultant.h: subresultants<strategy>"), ("resultant/discriminant wrappers", "polynomialfunctions/Resultant.h")])

P("C09", "Real root counts and root bounds are never wrong",
  "The number of real roots reported for an interval equals the number of distinct real roots in it, sign-variation bounds never undercount and share parity with the true count, and every root-bound function returns a bound that encloses all roots it promises to enclose. Removing zero roots, and eliminating a known root, keeps exactly the other roots.",
  ["inputs"],
  "all non-zero univariate polynomials with rational coefficients (repeated roots, zero roots, huge and tiny coefficients) and all bounded intervals, open or closed, points included (for exact counts: whose ends are no roots)",
  "Tests count roots of a few textbook polynomials; the guarantee is universal over polynomials and intervals.",
  [PF+"SturmSequence.h", PF+"RootCounting.h", PF+"SignVariations.h", PF+"RootBounds.h", PF+"RootElimination.h", C+"core/UnivariatePolynomial.tpp"],
  [("Sturm sequence", "polynomialfunctions/SturmSequence.h"), ("count from sign variations", "polynomialfunctions/RootCounting.h"), ("Cauchy/Hirst-Macey/Lagrange bounds", "polynomialfunctions/RootBounds.h")])

P("C10", "Factorisations multiply back and square-free parts keep the roots",
  "The factors with multiplicities returned for a univariate or multivariate polynomial multiply back to exactly that polynomial, contain no repeated factor, and in square-free factorisation are square-free and pairwise coprime with the right multiplicities (the product then determined up to a constant). The square-free part has the same roots as the input, each once.",
  ["inputs"],
  "all non-zero univariate polynomials with integer or rational coefficients, and all multivariate ones for trivial factorisation",
  "Tests factor a few fixed products; multiplicity bookkeeping must be right for every factor pattern.",
  [PF+"Factorization.h", PF+"Factorization_univariate.h", PF+"SquareFreePart.h"],
  [("factor by linear factors and Kronecker", "polynomialfunctions/Factorization_univariate.h"), ("square-free factorisation", "polynomialfunctions/Factorization_univariate.h: squareFreeFactorization")])

P("C11", "A computed Groebner basis is a reduced basis of exactly the input ideal",
  "After any sequence of adding polynomials and calculating, the reported basis generates the same ideal as all polynomials added so far, every S-polynomial of two basis elements reduces to zero, and the basis is reduced with unit leading coefficients. Reducing a polynomial by an ideal returns a remainder no term of which is divisible by a leading term and that differs from the input by an ideal element.",
  ["inputs", "histories"],
  "all finite sets of polynomials, all splits into incremental calculate calls, inconsistent ideals included",
  "Tests run a handful of textbook systems once; correctness quantifies over all systems, insertion orders and increments.",
  [C+"groebner/GBProcedure.h", C+"groebner/gb-buchberger/Buchberger.h", C+"groebner/gb-buchberger/Buchberger.tpp", C+"groebner/gb-buchberger/CriticalPairs.tpp", C+"groebner/Reductor.h", C+"groebner/Ideal.h", C+"groebner/ideal-ds/IdealDSVector.h", C+"util/Heap.h"],
  [("critical pair selection and elimination", "groebner/gb-buchberger: update, elimMultiples, removeBuchbergerTriples"), ("heap-based reduction", "groebner/Reductor.h"), ("basis reduction", "groebner/GBProcedure.h: reduceGB")])

P("C12", "Interval arithmetic over exact numbers is sound and tight",
  "For intervals with exact bounds (open, closed, half-open, unbounded, empty, point) every arithmetic operation returns an interval containing the result of the operation on every choice of members. For sum, difference, negation, product, scaling and integer power the returned interval is the smallest such interval, including whether each bound is attained.",
  ["inputs"],
  "all combinations of bound types and bound values (signs, zero bounds, infinite sides) for every operator and in-place variant",
  "The bound-type case distinction has hundreds of combinations; tests sample a few dozen, mostly closed intervals.",
  [C+"interval/Interval.h", C+"interval/Interval.tpp", C+"interval/operators.h", C+"interval/power.h"],
  [("sign case distinction with bound types", "interval/Interval.tpp: mul, div, reciprocal, div_ext"), ("operators with numbers", "interval/operators.h")])

P("C13", "Interval set operations, queries and samples respect membership",
  "Union, intersection, difference, symmetric difference, complement, convex hull, splitting and integral part return intervals with exactly the prescribed members; containment, subset, emptiness, intersection, sign and order queries answer according to the members. Every sampling function returns a member of a non-empty interval, respecting the request to avoid the bounds.",
  ["inputs"],
  "all pairs of intervals of every bound-type combination, touching, nested, disjoint and unbounded",
  "Set operations differ only at shared end points with mixed bound types, which tests sample sparsely.",
  [C+"interval/set_theory.h", C+"interval/sampling.h", C+"interval/Interval.h", C+"interval/Interval.tpp", C+"interval/operators.h"],
  [("lower/upper bound comparison", "interval/operators.h"), ("set operations", "interval/set_theory.h"), ("sampling", "interval/sampling.h")])

P("C14", "Interval evaluation encloses the range and contraction loses no solution",
  "Evaluating a monomial, term or polynomial over a box of intervals returns an interval that contains its value at every point of the box, and a comparison of an interval with zero is decided only as it holds for all its elements. Contracting a variable's interval with a constraint never removes a value that takes part in a solution inside the box, and never enlarges the interval.",
  ["inputs"],
  "all polynomials, all boxes (unbounded, open, containing zero), all variables to contract",
  "Tests contract a few fixed boxes; soundness quantifies over all points of all boxes.",
  [C+"interval/IntervalEvaluation.h", C+"interval/Contraction.h", C+"interval/Contractor.h", C+"interval/evaluate.h"],
  [("term-wise evaluation", "interval/IntervalEvaluation.h"), ("Newton and propagation contraction", "interval/Contraction.h")])

P("C15", "Floating-point intervals always enclose the exact result",
  "Arithmetic on intervals with double bounds returns bounds that enclose the exact real result of the operation on the operand intervals, whatever rounding the hardware performs. Converting exact numbers or intervals to double intervals encloses them. Roots are required for normal (not subnormal) bounds.",
  ["inputs"],
  "all pairs of double intervals including subnormal, huge and mixed-sign bounds, and all rationals",
  "Directed rounding errors show only for specific bit patterns; tests use small integers where all results are exact.",
  [C+"interval/Interval.h", C+"interval/Interval.tpp", C+"interval/conversion.h", C+"numbers/adaption_gmpxx/operations.h", C+"util/platform.h"],
  [("rounding policies", "interval/Interval.h: policies<double>"), ("roundUp/roundDown conversion", "numbers/operations_generic.h, util")])

P("C16", "Number functions over integers and rationals are exact",
  "For arbitrary-precision and native integers and for rationals, floor, ceil, round, absolute value, numerator, denominator, quotient, remainder, modulo, division, gcd, extended gcd, lcm, power, exact and bounded roots, sign, comparison, bit size and integrality tests return the mathematically defined value and, where two results are returned, these satisfy their defining identity.",
  ["inputs"],
  "all operands of both signs, of any size, including zero, exact multiples and values around machine-word limits",
  "Tests sample small positive operands; sign and word-boundary cases are barely covered.",
  [C+"numbers/adaption_gmpxx/operations.h", C+"numbers/adaption_gmpxx/operations.cpp", C+"numbers/adaption_native/operations.h", C+"numbers/adaption_native/EEA.h", C+"numbers/operations_generic.h"],
  [("gmp wrappers", "numbers/adaption_gmpxx/operations.{h,cpp}"), ("native wrappers", "numbers/adaption_native/operations.h")])

P("C17", "Numbers survive parsing, printing and conversion",
  "Printing an exact number and parsing it again yields the same number, in plain, fraction and decimal notation; a text that is not a number is rejected instead of being read as another number. Conversion between exact and machine number types preserves the value when it is representable and otherwise respects the requested rounding direction.",
  ["inputs"],
  "all integers and rationals, all accepted textual forms (sign, fraction, decimal point, exponent, zeros) and all doubles",
  "Round-trip is quantified over all numbers; tests parse a few literals.",
  [C+"numbers/adaption_gmpxx/operations.cpp", C+"numbers/parser/parser.h", C+"util/parser", C+"numbers/adaption_gmpxx/operations.h"],
  [("string to number", "numbers/adaption_gmpxx/operations.cpp: parse/try_parse"), ("rationalize/toDouble", "numbers/adaption_gmpxx/operations.h")])

P("C18", "Finite-field numbers obey field arithmetic",
  "Over every prime field and prime-power modulus accepted, addition, subtraction, negation, multiplication, inverse, division, power and comparison of field numbers are arithmetic modulo the field size for every operand representative, in every operand order. Inverse and division satisfy their identities, and symmetric and standard representatives denote the same element.",
  ["inputs", "configurations"],
  "all primes and exponents, all representatives including negative and unreduced ones, mixed operands with integers",
  "Tests use one prime and a few numbers.",
  [C+"numbers/GFNumber.h", C+"numbers/GaloisField.h", C+"numbers/adaption_native/EEA.h", C+"numbers/PrimeFactory.h"],
  [("normalisation modulo the field", "numbers/GaloisField.h: modulo, symmetricModulo"), ("operators", "numbers/GFNumber.h")])

P("C19", "Bit-vector values implement SMT-LIB bit-vector semantics",
  "Every operation on bit-vector constants of any width (construction from integers and strings, negation, bitwise and arithmetic operators, unsigned and signed division, remainder and modulo, shifts, rotations, concatenation, extraction, extension, repetition, comparison) returns the value and width that the SMT-LIB theory defines.",
  ["inputs"],
  "all widths, including 1 and widths above the machine word, and all operand values",
  "Tests check a few 4- to 16-bit examples per operator; sign and shift-amount corner cases are unsampled.",
  [C+"formula/bitvector/BVValue.h", C+"formula/bitvector/BVValue.cpp"],
  [("bit-serial arithmetic", "formula/bitvector/BVValue.cpp")])

P("C20", "Bit-vector terms and constraints are shared and keep their meaning",
  "Building a bit-vector term or constraint, with whatever simplification happens on construction, and substituting terms for variables preserve the value under every assignment and report the right width and variables. Structurally equal terms or constraints are one and the same object with one identity, and different ones are distinct, whatever else was built before.",
  ["inputs", "histories"],
  "all terms over all operators and widths, all assignments, all construction orders",
  "Tests build a few terms and compare printed output; sharing and semantics over all histories are not checked.",
  [C+"formula/bitvector/BVTerm.h", C+"formula/bitvector/BVTerm.cpp", C+"formula/bitvector/BVTermPool.cpp", C+"formula/bitvector/BVTermContent.h", C+"formula/bitvector/BVConstraint.h", C+"formula/bitvector/BVConstraintPool.cpp", C+"formula/bitvector/Pool.h"],
  [("constant folding on creation", "formula/bitvector/BVTermPool.cpp, BVConstraintPool.cpp"), ("pooling", "formula/bitvector/Pool.h")])

P("C21", "Constraints keep their solution set under normalisation and are shared",
  "A constraint built from a polynomial (or variable bound) and a relation is satisfied by exactly the assignments that satisfy the original comparison, over reals and over integer variables, and so is the complement for its negation; consistency, definiteness, bound, substitution and degree reports are true of it. Two constraints compare equal exactly when their stored normal forms coincide, and identity is stable over any history of creating and releasing constraints.",
  ["inputs", "histories"],
  "all polynomials, relations, variable types and assignments, and all creation/release histories",
  "Tests construct a few linear constraints; normalisation (scaling, integer tightening, definiteness) must be equivalence-preserving for all.",
  [C+"formula/Constraint.h", C+"formula/Constraint.tpp", C+"formula/ConstraintRaw.h", C+"formula/ConstraintPool.h", C+"formula/ConstraintPool.tpp", C+"core/Relation.h", PF+"Definiteness.h"],
  [("normalisation of raw constraints", "formula/ConstraintRaw.h"), ("constraint pool", "formula/ConstraintPool.tpp")],
  [("pool", "set of live constraints, one object per normal form")])

P("C22", "Formulas keep their meaning and are hash-consed",
  "Constructing a formula with any connective, with whatever simplification happens on construction, negating it, converting it to negation normal form or conjunctive normal form, and substituting in it preserve its truth value under every assignment (equisatisfiability where fresh variables are introduced). Equal formulas are one shared object, distinct ones stay distinct, a formula and its negation are linked, and this holds through any history of creating and releasing formulas.",
  ["inputs", "histories"],
  "all formulas over Booleans and constraints, all connective nestings, all creation/release histories",
  "Tests check printed shapes of a few formulas; truth preservation quantifies over all formulas and assignments.",
  [C+"formula/Formula.h", C+"formula/Formula.tpp", C+"formula/FormulaContent.h", C+"formula/FormulaContent.tpp", C+"formula/FormulaPool.h", C+"formula/FormulaPool.tpp", C+"formula/helpers/to_cnf.h"],
  [("simplifying construction", "formula/FormulaPool.tpp: createNAry, createImplication, createITE"), ("pool with reference counts", "formula/FormulaPool.h"), ("CNF", "formula/helpers/to_cnf.h")],
  [("pool", "live formulas with usage counts; a formula and its negation are linked")])

P("C23", "Set-cover heuristics always return a cover, the exact one a minimum cover",
  "Every covering heuristic returns a selection of the given sets; complete heuristics cover every coverable element, bounded and preprocessing ones leave a remaining problem whose covers complete the selection, and the exact solver returns a cover of minimum cardinality. Preprocessing never changes which selections of sets are covers.",
  ["inputs", "histories"],
  "all finite set systems (empty sets, duplicate sets and columns, single sets) and all orders of stating coverage, all heuristic combinations",
  "Tests run one small instance per heuristic.",
  ["src/carl-covering/SetCover.cpp", "src/carl-covering/SetCover.h", "src/carl-covering/TypedSetCover.h", "src/carl-covering/heuristics/exact.cpp", "src/carl-covering/heuristics/greedy.cpp", "src/carl-covering/heuristics/remove_duplicates.cpp", "src/carl-covering/heuristics/select_essential.cpp", C+"util/Bitset.h"],
  [("exact search over cardinalities", "carl-covering/heuristics/exact.cpp"), ("greedy selection", "carl-covering/heuristics/greedy.cpp")])

P("C24", "Names, sorts and function symbols have stable unique identities",
  "Every declared variable keeps its identity, type and name for ever: fresh variables are distinct from all earlier ones, named lookup returns the variable declared under that name, and types never mix. Sorts, uninterpreted functions and their instances are equal exactly when declared equal, and expanding or replacing sort definitions, checking arity and querying domains answer according to the declarations made so far.",
  ["histories"],
  "all interleavings of declaring, looking up, renaming and clearing variables, sorts, functions and instances",
  "Tests declare a few names once; identity must hold over all histories.",
  [C+"core/Variable.h", C+"core/VariablePool.h", C+"core/VariablePool.cpp", C+"formula/SortManager.h", C+"formula/SortManager.cpp", C+"formula/Sort.cpp", C+"formula/uninterpreted/UFManager.cpp", C+"formula/uninterpreted/UFInstanceManager.cpp"],
  [("variable pool", "core/VariablePool.cpp"), ("sort manager", "formula/SortManager.cpp"), ("function and instance managers", "formula/uninterpreted/*.cpp")],
  [("declared names", "map from names to identities"), ("declared sorts", "arity, parameters, definitions")])

P("C25", "Utility containers behave like the abstract structures they represent",
  "Over every sequence of operations, the bit set behaves as a set of naturals with a default beyond its size, the id pool hands out the ids not in use, the priority heap always yields a maximal element and loses none, the value cache returns the stored value and evicts only what is unused, and the tree container keeps parent, child, sibling and traversal relations consistent.",
  ["histories"],
  "all operation sequences, including interleaved insertions and removals, sizes beyond one block, copies and iteration",
  "Tests run short fixed sequences; representation errors appear only after particular histories.",
  [C+"util/Bitset.h", C+"util/IDPool.h", C+"util/Heap.h", C+"util/CompactTree.h", C+"util/Cache.h", C+"util/Cache.tpp", C+"util/carlTree.h", C+"util/BitVector.h"],
  [("bit set with default", "util/Bitset.h"), ("heap on compact tree", "util/Heap.h, util/CompactTree.h"), ("tree with node reuse", "util/carlTree.h"), ("free-list ids", "util/IDPool.h")],
  [("abstract container", "set, multiset, map or tree that the concrete container represents")])

P("C26", "Virtual substitution and test candidates preserve solutions",
  "The zeros computed for a constraint in a variable, with their side conditions, include every real zero of its polynomial, and substituting a test candidate (square-root expression, optionally plus an infinitesimal, or an infinity) into a constraint yields conditions that are true for exactly the parameter values at which the substituted constraint holds. Square-root expressions obey their arithmetic.",
  ["inputs"],
  "all constraints of degree at most two in the eliminated variable, all candidates, all relations and all parameter values",
  "Tests check a few substitutions; equivalence quantifies over all parameter values.",
  [C+"vs/SqrtEx.h", C+"vs/SqrtEx.tpp", C+"vs/substitute.h", C+"vs/substitute.tpp", C+"vs/term.h", C+"vs/zeros.h"],
  [("square root expressions", "vs/SqrtEx"), ("substitution rules", "vs/substitute.tpp")])

P("C27", "Concurrent use of monomials, polynomials and shared tables is safe",
  "When the library is configured for threads, any interleaving of threads creating, combining, comparing and dropping monomials, computing with their own polynomials, requesting variables and enumerating primes behaves as some sequential order. Each thread obtains the results it would obtain alone, equal monomials in use are identical, different variables are distinct, and nothing is freed while in use.",
  ["schedules", "configurations"],
  "all schedules, down to single memory accesses, of several threads on overlapping monomials",
  "The test suite is single threaded and built without thread support.",
  [C+"core/MonomialPool.h", C+"core/MonomialPool.cpp", C+"core/Monomial.cpp", C+"util/IDPool.h", C+"core/VariablePool.cpp"],
  [("pool mutex and weak references", "core/MonomialPool.cpp: add, free; core/Monomial.cpp: ~Monomial")],
  [("pool entry", "absent, live, or dying (last owner gone, not yet unlinked)")])

P("C28", "Real algebraic numbers are located and compared correctly",
  "Isolating the real roots of a univariate polynomial within an interval returns every real root there exactly once, in increasing order, each represented exactly or by an interval containing just that root. Comparison, sign, rounding, refinement and evaluation of such numbers agree with the real numbers they denote, and refinement never changes the number.",
  ["inputs", "histories"],
  "all non-zero polynomials with rational coefficients, all intervals, all pairs of numbers and all sequences of comparisons and refinements",
  "Tests isolate roots of a few polynomials; ordering and refinement histories are not explored.",
  [C+"ran/interval/ran_interval.h", C+"ran/interval/RealRootIsolation.h", C+"ran/interval/ran_interval_real_roots.h", C+"ran/interval/ran_interval_extra.h"],
  [("bisection isolation", "ran/interval/RealRootIsolation.h"), ("shared interval refinement", "ran/interval/ran_interval.h")],
  [("number", "defining polynomial with an isolating interval that only shrinks")])

P("C29", "Models evaluate formulas and constraints to their true value",
  "Evaluating a formula, constraint or polynomial under a model, or substituting a partial model into it, gives the value (or residual) that the semantics prescribes, for Boolean, integer, rational and bit-vector variables. Assigning, re-assigning and erasing model entries affects exactly the named variables.",
  ["inputs", "histories"],
  "all formulas and constraints, all total and partial models, all assignment histories",
  "Tests evaluate a few formulas under one model.",
  ["src/carl-model/Model.h", "src/carl-model/ModelValue.h", "src/carl-model/evaluation/ModelEvaluation_Formula.h", "src/carl-model/evaluation/ModelEvaluation_Constraint.h", "src/carl-model/evaluation/ModelEvaluation_Polynomial.h", "src/carl-model/evaluation/ModelEvaluation_Bitvector.h"],
  [("recursive substitution then evaluation", "carl-model/evaluation/*")])

P("C30", "Relations and signs form the algebra of comparisons",
  "Evaluating a relation on a sign or on two numbers, inverting it, turning it around, and classifying it as strict or weak agree with real comparison for every relation and operand. Inverting complements the truth value, turning around swaps the operands, and combining never changes the meaning.",
  ["inputs"],
  "all relations, all signs and all pairs of numbers",
  "Tests check individual entries; the laws relate all entries of all tables.",
  [C+"core/Relation.h", C+"core/Sign.h"],
  [("relation tables", "core/Relation.h")])

P("C31", "Structural polynomial rewrites denote the same polynomial",
  "Horner schemes and sums-of-squares decompositions of a polynomial evaluate at every point to the value of the polynomial they were built from. Chebyshev polynomials are those of the defining recurrence. Definiteness verdicts hold at every point, and solutions reported for linear integer equations solve them.",
  ["inputs"],
  "all polynomials and evaluation points",
  "Tests compare printed forms of a few polynomials.",
  [C+"core/MultivariateHorner.h", C+"core/MultivariateHorner.tpp", PF+"SoSDecomposition.h", PF+"Chebyshev.h", PF+"Definiteness.h"],
  [("Horner recursion", "core/MultivariateHorner.tpp"), ("sum of squares by completing squares", "polynomialfunctions/SoSDecomposition.h")])

P("C32", "Option parsing, logging filters and statistics report what was given",
  "Every duration or quantity text accepted by the option layer is read as the value it denotes, texts with an unrepresentable value are rejected, and a value prints as its whole number of the largest unit in which it is not zero; options take their value from the command line, else the configuration file, else their default, and every finalizer then runs once, in order. A log message reaches a sink exactly when the most specific configured filter of its channel admits its level. Collected statistics report exactly the values recorded, under the names used.",
  ["inputs", "histories"],
  "all accepted texts, all filter configurations and messages, all recording sequences",
  "Tests use a few fixed settings.",
  ["src/carl-settings/settings_utils.cpp", "src/carl-settings/settings_utils.h", "src/carl-settings/SettingsParser.h", "src/carl-settings/SettingsParser.cpp", "src/carl-logging/Filter.h", "src/carl-logging/Logger.h", "src/carl-statistics/Statistics.h"],
  [("binary quantity and duration parsing", "carl-settings/settings_utils.cpp"), ("channel prefix lookup", "carl-logging/Filter.h")],
  [("filter", "map from channel prefix to level")])

P("C33", "Text exchange formats denote the object they were written from or read into",
  "Writing a formula, constraint, term or model in SMT-LIB notation yields text whose standard meaning is that object; polynomial and formula texts written (also for Maple and QEPCAD) or read denote the polynomial or formula they spell; DIMACS and OPB files are read as, and written as, exactly the clauses and pseudo-Boolean constraints they contain.",
  ["inputs"],
  "all formulas, polynomials, clause sets and files in the accepted formats",
  "Tests compare a few printed strings.",
  ["src/carl-io/SMTLIBStream.h", "src/carl-io/MapleStream.h", "src/carl-io/QEPCADStream.h", "src/carl-io/DIMACSExporter.h", "src/carl-io/DIMACSImporter.h", "src/carl-io/OPBImporter.cpp", C+"util/stringparser.h", C+"util/parser"],
  [("stream writer", "carl-io/SMTLIBStream.h"), ("importers", "carl-io/*Importer*")])

P("C34", "Rational functions compute exactly in the field of quotients",
  "Sums, differences, products, quotients, powers, inverses, substitutions and evaluations of rational functions, also with polynomial, term, variable and number operands and when a function is combined with itself in place, are the exact results in the field of quotients, whatever history of operations led to the operands. Where automatic simplification is on, two rational functions compare equal exactly if they are the same function. Division by zero is rejected.",
  ["inputs", "histories"],
  "all histories of operations on rational functions, with and without automatic simplification",
  "No test of the rational functions runs without an external library, and aliasing, sign and normalisation defects need particular operand sequences.",
  ["src/carl-extpolys/RationalFunction.h", "src/carl-extpolys/RationalFunction.tpp"],
  [("addition over a common denominator", "carl-extpolys/RationalFunction.tpp"), ("cancellation and normalisation", "carl-extpolys/RationalFunction.tpp")],
  [("rational function", "a number or a pair of polynomials with a flag that the pair is cancelled")])

P("C35", "Factorised polynomials behave as the polynomials they stand for",
  "However a factorised polynomial came about, its value is the exact result of the ring operations, substitutions and derivatives that led to it, and comparisons, degree and other queries answer for that polynomial. The factors reported multiply to it. Greatest common divisors and least common multiples of factorised polynomials are such, and refining shared factors never changes the value of any other polynomial that uses them.",
  ["inputs", "histories"],
  "all histories of operations on factorised polynomials that share one cache",
  "No test of the factorised polynomials runs without an external library; errors appear when factors are refined after they have been shared.",
  ["src/carl-extpolys/FactorizedPolynomial.h", "src/carl-extpolys/FactorizedPolynomial.tpp", "src/carl-extpolys/PolynomialFactorizationPair.h", "src/carl-extpolys/PolynomialFactorizationPair.tpp", "src/carl-extpolys/substitution.h"],
  [("factor refinement by greatest common divisors", "carl-extpolys/PolynomialFactorizationPair.tpp"), ("cache of factorisations", C+"util/Cache.h")],
  [("cache", "polynomials with their factorisations, shared by all factorised polynomials")])

P("C36", "Multivariate greatest common divisors, contents and factors are such",
  "The greatest common divisor of two polynomials over the rationals divides both and leaves cofactors without common factor, and the least common multiple is the product divided by it, for any number of variables and whichever variable is taken as main variable. Contents and primitive parts multiply to the polynomial, and no factor is left in the coefficients of the primitive part. The factors a factorisation reports multiply to the polynomial, and square-free parts have the same factors.",
  ["inputs"],
  "all pairs of polynomials over the rationals",
  "Tests compute the divisors of a few pairs and never show that nothing larger divides both.",
  [PF+"GCD.h", PF+"GCD_multivariate.h", PF+"GCD_Term.h", PF+"LCM.h", PF+"PrimitiveEuclidean.h", PF+"Content.h", PF+"PrimitivePart.h", PF+"Factorization.h", PF+"SquareFreePart.h", PF+"Remainder.h", PF+"Representation.h"],
  [("primitive Euclidean algorithm", "polynomialfunctions/PrimitiveEuclidean.h"), ("choice of the main variable", "polynomialfunctions/GCD_multivariate.h")])

P("C37", "Reported symmetries keep a formula's truth; breaking keeps a model per orbit",
  "Every symmetry reported for a formula is a permutation of its variables, preserving their types, under which the formula keeps its truth value at every assignment; every permutation that only renames and reorders the formula is generated by those reported. Conjoining the symmetry-breaking condition keeps a model of every orbit, so satisfiability is unchanged, and excludes something whenever two comparable variables are exchanged.",
  ["inputs"],
  "all formulas over all kinds of atoms, connectives and quantifiers",
  "The symmetry test is not built here, and an unsound symmetry shows only at an assignment the permutation moves out of the set of models.",
  [C+"formula/symmetry/symmetry.h", C+"formula/symmetry/SymmetryFinder.h", C+"formula/symmetry/SymmetryBreaker.h"],
  [("coloured graph of the formula", "formula/symmetry/SymmetryFinder.h"), ("lexicographic breaking condition", "formula/symmetry/SymmetryBreaker.h")])

P("C38", "Tarski queries, sign determination and Thom encodings describe the real zeros",
  "For every zero-dimensional system, the Tarski query of a polynomial is the number of real zeros where it is positive minus the number where it is negative, and sign determination lists exactly the sign combinations that the given polynomials take at the real zeros, each once. The Thom encodings of a polynomial's roots, also over an algebraic point, are one per distinct real root within the given bounds, in increasing order; comparisons between encodings and with rationals, signs of polynomials at them, shifts and intermediate points are those of the numbers encoded.",
  ["inputs", "histories"],
  "all zero-dimensional polynomial systems, all sequences of queries on one object and of operations on encodings",
  "No test runs this code; it has state that grows with each query, and errors need particular coincidences of signs or an empty zero set.",
  [C+"ran/thom/TarskiQuery/TarskiQueryManager.h", C+"ran/thom/TarskiQuery/MultiplicationTable.h", C+"ran/thom/TarskiQuery/MultivariateTarskiQuery.h", C+"ran/thom/TarskiQuery/UnivariateTarskiQuery.h", C+"ran/thom/SignDetermination/SignDetermination.h", C+"ran/thom/SignDetermination/SignCondition.h", C+"ran/thom/ThomEncoding.h", C+"ran/thom/ThomEncoding.tpp", C+"ran/thom/ThomRootFinder.h"],
  [("cached queries by normalised polynomial", "ran/thom/TarskiQuery/TarskiQueryManager.h"), ("adapted matrix updated by each added polynomial", "ran/thom/SignDetermination/SignDetermination.h"), ("comparison of sign conditions", "ran/thom/SignDetermination/SignCondition.h")],
  [("sign determination", "polynomials added so far with the sign combinations they take")])

P("C39", "Elementary functions of floating-point intervals enclose their values",
  "The exponential, logarithm, trigonometric and hyperbolic functions and their inverses, applied to an interval with floating-point bounds (open, closed or unbounded), return an interval containing the value at every point of the interval where the function is defined, up to the accuracy of the machine's mathematical functions; rational values and extrema that are attained are contained exactly. On bounded intervals where the function is monotone the result is no wider than that accuracy requires. In-place variants give the same result.",
  ["inputs"],
  "all non-empty intervals with floating-point bounds that meet the domain of the function, of all bound types",
  "No test applies these functions; errors depend on which bounds are attained and where extrema, poles and domain limits lie.",
  [C+"interval/trigonometric.h", C+"interval/exponential.h"],
  [("bound types of images", C.replace("src/", "")+"interval/trigonometric.h"), ("unbounded arguments", C.replace("src/", "")+"interval/exponential.h")])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in OUT]
assert len(ids) == len(set(ids))
with open(path, "w") as f:
    for p in OUT: f.write(json.dumps(p) + "\n")
print(len(OUT), "properties")
