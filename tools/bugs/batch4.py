import sys
S = "src/carl/"
PF = S + "core/polynomialfunctions/"
import os
SHIM = open(os.path.dirname(os.path.abspath(sys.argv[1])) + '/../../drivers/shim.h').read().replace('#pragma once\n', '')  # stand-ins for what needs CoCoALib
POLY = '''
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
using Q = mpq_class;
using P = MultivariatePolynomial<Q>;
using U = UnivariatePolynomial<Q>;
'''
FORM = SHIM + POLY + '''
#include <carl/formula/Formula.h>
using F = Formula<P>;
'''
BUGS = [
 dict(id="try-divide-zero-keeps-quotient", property="C06",
      needs="dividing the zero polynomial, with something else stored in the quotient before",
      breaks="the division succeeds but the quotient is what was there before",
      edits=[(PF + "Division.h", "	if (carl::isZero(dividend)) {\n		quotient = MultivariatePolynomial<Coeff,Ordering,Policies>();\n		return true;", "	if (carl::isZero(dividend)) {\n		return true;")],
      demo=POLY + """
#include <carl/core/polynomialfunctions/Division.h>
int main() {
	Variable x = freshRealVariable("x");
	P q(x);
	return try_divide(P(), P(x) + Q(1), q) && isZero(q) ? 0 : 1;
}
"""),
 dict(id="linear-factors-third", property="C10",
      needs="a rational root whose numerator is half the constant coefficient",
      breaks="the linear factor is not split off",
      edits=[(PF + "Factorization_univariate.h", "tcAsInt == 1 ? 1 : tcAsInt/2", "tcAsInt == 1 ? 1 : tcAsInt/3")],
      demo=POLY + """
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
int main() {
	Variable x = freshRealVariable("x");
	U p(x, {Q(-20), Q(2), Q(-10), Q(1)});
	std::size_t n = 0;
	for (const auto& f : carl::factorization(p)) if (!is_constant(f.first)) ++n;
	return n == 2 ? 0 : 1;
}
"""),
 dict(id="smtlib-linear-coefficient", property="C33",
      needs="writing a univariate polynomial of degree one or more whose linear coefficient is not one",
      breaks="the coefficient of the linear term is lost",
      edits=[("src/carl-io/SMTLIBStream.h", '				if (exp == 0) *this << " " << coeff;\n', '				if (exp == 0) *this << " " << coeff;\n				else if (exp == 1) *this << " " << up.mainVar();\n')],
      demo=FORM + """
#include <carl-io/SMTLIBStream.h>
int main() {
	Variable x = freshRealVariable("x");
	SMTLIBStream s;
	s << U(x, {Q(1), Q(5), Q(1)});
	return s.str().find('5') != std::string::npos ? 0 : 1;
}
"""),
 dict(id="symmetry-lex-prefix", property="C37",
      needs="a symmetry that moves at least two pairs of variables",
      breaks="the breaking condition excludes the only representative of an orbit, a satisfiable formula becomes unsatisfiable",
      edits=[(S + "formula/symmetry/SymmetryBreaker.h", "eq.emplace_back(createComparison<Poly>(v.first, v.second, Relation::EQ));", "eq.emplace_back(createComparison<Poly>(v.first, v.second, Relation::LEQ));")],
      demo=FORM + """
#undef USE_BLISS
#include <carl/formula/symmetry/symmetry.h>
#include <carl/formula/symmetry/SymmetryBreaker.h>
int main() {
	Variable a = freshBooleanVariable("a"), b = freshBooleanVariable("b"), c = freshBooleanVariable("c"), d = freshBooleanVariable("d");
	// (a b)(c d): of the assignments with a != b and c != d, two must remain.
	F f = carl::formula::symmetry::lexLeaderConstraint<P>({{a, b}, {b, a}, {c, d}, {d, c}});
	int kept = 0;
	for (int i = 0; i < 4; ++i) {
		bool va = i & 1, vc = i & 2;
		std::map<Variable, bool> m = {{a, va}, {b, !va}, {c, vc}, {d, !vc}};
		std::function<bool(const F&)> ev = [&](const F& g) -> bool {
			switch (g.getType()) {
				case FormulaType::TRUE: return true;
				case FormulaType::FALSE: return false;
				case FormulaType::BOOL: return m.at(g.boolean());
				case FormulaType::NOT: return !ev(g.subformula());
				case FormulaType::IMPLIES: return !ev(g.premise()) || ev(g.conclusion());
				case FormulaType::AND: for (const auto& s : g.subformulas()) if (!ev(s)) return false; return true;
				case FormulaType::OR: for (const auto& s : g.subformulas()) if (ev(s)) return true; return false;
				case FormulaType::IFF: { bool w = ev(g.subformulas().front()); for (const auto& s : g.subformulas()) if (ev(s) != w) return false; return true; }
				default: std::exit(3);
			}
		};
		if (ev(f)) ++kept;
	}
	return kept == 2 ? 0 : 1;
}
"""),
 dict(id="tarski-cache-sign", property="C38",
      needs="asking the same polynomial, or a multiple of it, again when its leading coefficient is negative",
      breaks="the answer has the wrong sign the second time",
      edits=[(S + "ran/thom/TarskiQuery/TarskiQueryManager.h", "mCache.insert(std::make_pair(p.normalize(), int(sgn(p.lcoeff())) * res));", "mCache.insert(std::make_pair(p.normalize(), res));")],
      demo=SHIM + POLY + """
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/ran/thom/TarskiQuery/TarskiQueryManager.h>
int main() {
	Variable x = freshRealVariable("x");
	std::vector<P> z = {P(x) * P(x) - Q(2) * P(x)};
	TarskiQueryManager<Q> t(z.begin(), z.end());
	P p = Q(1) - P(x) * Q(3);
	int a = t(p - Q(2)), b = t(p - Q(2));
	return a == -2 && b == -2 ? 0 : 1;
}
"""),
 dict(id="thom-order-negative", property="C38",
      needs="two roots that are told apart by a derivative followed by a negative one",
      breaks="the larger root is reported to be the smaller one",
      edits=[(S + "ran/thom/SignDetermination/SignCondition.h", "return (*it_lhs < *it_rhs) ? ThomComparisonResult::GREATER : ThomComparisonResult::LESS;", "return (*it_lhs < *it_rhs) ? ThomComparisonResult::LESS : ThomComparisonResult::GREATER;")],
      demo=SHIM + POLY + """
#include <carl/ran/thom/SignDetermination/SignCondition.h>
int main() {
	// -x^2 + 1 at -1 and at 1: signs of the first and second derivative.
	SignCondition a = {Sign::POSITIVE, Sign::NEGATIVE}, b = {Sign::NEGATIVE, Sign::NEGATIVE};
	return SignCondition::compare(a, b) == LESS && SignCondition::compare(b, a) == GREATER ? 0 : 1;
}
"""),
]
