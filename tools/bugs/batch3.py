import sys
S = "src/carl/"
PF = S + "core/polynomialfunctions/"
import os
SHIM = open(os.path.dirname(os.path.abspath(sys.argv[1])) + '/../../drivers/shim.h').read().replace('#pragma once\n', '')  # stand-ins for what needs CoCoALib
POLY = '''
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
using Q = mpq_class;
using P = MultivariatePolynomial<Q>;
using U = UnivariatePolynomial<Q>;
'''
FORM = SHIM + POLY + '''
#include <carl/formula/Formula.h>
using F = Formula<P>;
'''
BUGS = [
 dict(id="logging-filter-skips-ancestors", property="C32",
      needs="a filter rule for a channel that is neither the channel itself nor its first component",
      breaks="rules of intermediate channels are ignored for the channels below them",
      edits=[("src/carl-logging/Filter.h", "auto n = tmp.rfind('.');", "auto n = tmp.find('.');")],
      demo="""
#include <carl-logging/carl-logging.h>
#include <carl-logging/Filter.h>
int main() {
	carl::logging::Filter f;
	f("", carl::logging::LogLevel::LVL_ERROR)("a.b", carl::logging::LogLevel::LVL_DEBUG);
	return f.check("a.b.c", carl::logging::LogLevel::LVL_INFO) ? 0 : 1;
}
""", link=["-lcarl-logging"]),
 dict(id="monomial-sqrt-odd-exponents", property="C01",
      needs="a monomial of even degree with two odd exponents greater than one",
      breaks="a square root is reported for a monomial that is no square",
      edits=[(S + "core/Monomial.cpp", "if (it.second % 2 == 1) return nullptr;", "if (it.second == 1) return nullptr;")],
      demo=POLY + """
#include <carl/core/MonomialPool.h>
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	Monomial::Arg m = createMonomial(x, 3) * createMonomial(y, 3);
	return m->sqrt() == nullptr ? 0 : 1;
}
"""),
 dict(id="order-lexical-variable", property="C02",
      needs="comparing a product of several variables with its first variable in the lexical order",
      breaks="they are reported to be equal",
      edits=[(S + "core/Monomial.h", "			if(lhs->mExponents.size() > 1) return CompareResult::GREATER;\n", "")],
      demo=POLY + """
#include <carl/core/MonomialPool.h>
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	Monomial::Arg m = createMonomial(x, 1) * createMonomial(y, 1);
	return Monomial::compareLexical(m, x) == Monomial::compareLexical(m, createMonomial(x, 1)) ? 0 : 1;
}
"""),
 dict(id="stern-brocot-lower-bound", property="C13",
      needs="a closed lower bound that is the integer next to the centre, with bounds excluded",
      breaks="the sample is the excluded bound",
      edits=[(S + "interval/sampling.h", "(includingBounds || i.isUnbounded() || (cur != i.lower() && cur != i.upper()))", "(includingBounds || i.isUnbounded() || cur != i.upper())")],
      demo="""
#include <carl/numbers/numbers.h>
#include <carl/interval/Interval.h>
#include <carl/interval/sampling.h>
int main() {
	carl::Interval<mpq_class> i(mpq_class(1), carl::BoundType::WEAK, mpq_class(2), carl::BoundType::WEAK);
	mpq_class s = carl::sample_stern_brocot(i, false);
	return s > 1 && s < 2 ? 0 : 1;
}
"""),
 dict(id="sqrt-fast-upper", property="C16",
      needs="a bounded root of a fraction with neither part a square",
      breaks="the upper bound is below the root",
      edits=[(S + "numbers/adaption_gmpxx/operations.cpp", """                mpq_class lower = mpq_class(num) / (den + 1);
                mpq_class upper = (mpq_class(num) + 1) / den;
                return std::make_pair(lower, upper);""", """                mpq_class lower = mpq_class(num) / (den + 1);
                mpq_class upper = (mpq_class(num) + 1) / (den + 1);
                return std::make_pair(lower, upper);""")],
      demo="""
#include <carl/numbers/numbers.h>
int main() {
	mpq_class a(8, 3);
	auto r = carl::sqrt_fast(a);
	return r.first * r.first <= a && r.second * r.second >= a ? 0 : 1;
}
"""),
 dict(id="gf-difference-without-field", property="C18",
      needs="subtracting in place from a number that does not know its field yet",
      breaks="the difference is not reduced modulo the field size",
      edits=[(S + "numbers/GFNumber.tpp", """	if (mGf == nullptr) {
		mGf = rhs.mGf;
	}
	mN -= rhs.mN;""", """	mN -= rhs.mN;""")],
      demo="""
#include <carl/numbers/numbers.h>
#include <carl/numbers/GaloisField.h>
#include <carl/numbers/GFNumber.h>
int main() {
	using Z = mpz_class;
	const carl::GaloisField<Z>* f = carl::GaloisFieldManager<Z>::getInstance().getField(7, 1);
	carl::GFNumber<Z> a(Z(-2)), b(Z(3), f), c(Z(2), f);
	a -= b;
	return a == c ? 0 : 1;
}
"""),
 dict(id="sort-replace-drops-indices", property="C24",
      needs="a sort definition over a sort with both parameters and indices",
      breaks="the expanded sort has lost its indices",
      edits=[(S + "formula/SortManager.cpp", """	if (sc.indices == nullptr) return res;
	return index(res, *sc.indices);""", """	return res;""")],
      demo=SHIM + """
#include <carl/formula/SortManager.h>
int main() {
	using namespace carl;
	auto& sm = SortManager::getInstance();
	sm.declare("Arr", 1); sm.declare("Elem", 0); sm.declare("T", 0);
	Sort elem = sm.getSort("Elem"), t = sm.getSort("T");
	Sort at = sm.getSort("Arr", {t}), ae = sm.getSort("Arr", {elem});
	sm.makeSortIndexable(at, 1, VariableType::VT_UNINTERPRETED);
	sm.makeSortIndexable(ae, 1, VariableType::VT_UNINTERPRETED);
	Sort s = sm.index(at, {5});
	sm.define("Def", {"T"}, s);
	Sort d = sm.getSort("Def", {elem});
	return d == sm.index(ae, {5}) ? 0 : 1;
}
"""),
 dict(id="diophantine-three-coefficients", property="C31",
      needs="a linear equation whose constant is divisible only by the gcd of at least three coefficients",
      breaks="the reported solution does not solve the equation",
      edits=[(S + "core/DiophantineEquation.tpp", """        for(auto& r : fromExtendedGcd) {
            r *= s;
        }
        fromExtendedGcd.push_back(t);""", """        fromExtendedGcd.back() *= s;
        fromExtendedGcd.push_back(t);""")],
      demo=POLY + """
#include <carl/core/DiophantineEquation.h>
int main() {
	using Z = mpz_class;
	using M = MultivariatePolynomial<Z>;
	Variable x = freshIntegerVariable("x"), y = freshIntegerVariable("y"), z = freshIntegerVariable("z");
	M p = M(Z(6)) * M(x) + M(Z(10)) * M(y) + M(Z(15)) * M(z) + M(Z(1));
	auto s = solveDiophantine(p);
	if (s.size() != 3) return 1;
	// the solution is for the coefficients in the order of the terms
	auto t = p.getTerms();
	Z v = 1;
	for (std::size_t i = 0; i < 3; ++i) v += t[i + 1].coeff() * s[i];
	return v == 0 ? 0 : 1;
}
"""),
 dict(id="upoly-map-constructor-gap", property="C07",
      needs="building a univariate polynomial from a map whose last entries are zero",
      breaks="leading zeros are kept",
      edits=[(S + "core/UnivariatePolynomial.tpp", """		mCoefficients.push_back(expAndCoeff.second);
	}
	this->stripLeadingZeroes();""", """		mCoefficients.push_back(expAndCoeff.second);
	}""")],
      demo=POLY + """
int main() {
	Variable x = freshRealVariable("x");
	U p(x, std::map<carl::uint, Q>{{0, Q(1)}, {1, Q(2)}, {3, Q(0)}});
	return p.degree() == 1 ? 0 : 1;
}
"""),
 dict(id="contraction-second-root", property="C14",
      needs="contracting a variable that occurs with an even power and has solutions of both signs",
      breaks="the second of the two root intervals is lost",
      edits=[(S + "interval/Contraction.h", """                        rootB = set_intersection(rootB, _varInterval);
						CARL_LOG_DEBUG("carl.contraction", "second intersected with " << _varInterval << " = " << rootB);
                        if( !rootB.isEmpty() )
                            _result.push_back(std::move(rootB));""", """                        rootB = set_intersection(rootB, _varInterval);
						CARL_LOG_DEBUG("carl.contraction", "second intersected with " << _varInterval << " = " << rootB);
                        if( !rootB.isEmpty() && _result.empty() )
                            _result.push_back(std::move(rootB));""")],
      demo=SHIM + POLY + """
#include <carl/interval/Interval.h>
#include <carl/interval/Contraction.h>
int main() {
	using I = Interval<double>;
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	std::map<Variable, I> b;
	b[x] = I(-3.0, 3.0); b[y] = I(4.0, 4.0);
	Contraction<SimpleNewton, P> c(P(x) * P(x) - P(y));
	I r = I::emptyInterval(), s = I::emptyInterval();
	bool two = c(b, x, r, s, false, true);
	for (double v : {-2.0, 2.0})
		if (!r.contains(v) && !(two && s.contains(v))) return 1;
	return 0;
}
"""),
 dict(id="ivl-even-power-symmetric", property="C15",
      needs="an even power of an interval with bounds of equal size, only the lower one excluded",
      breaks="the attained upper bound of the power is excluded",
      edits=[(S + "interval/power.h", "				rType = getWeakestBoundType(lType, rType);\n", "				rType = lType;\n")],
      demo="""
#include <carl/numbers/numbers.h>
#include <carl/interval/Interval.h>
#include <carl/interval/power.h>
int main() {
	carl::Interval<double> i(-2.0, carl::BoundType::STRICT, 2.0, carl::BoundType::WEAK);
	return carl::pow(i, 2).contains(4.0) ? 0 : 1;
}
"""),
 dict(id="fpoly-derivative-coefficient", property="C35",
      needs="the derivative of a factorised polynomial that carries a coefficient",
      breaks="the coefficient is missing from the derivative",
      edits=[("src/carl-extpolys/FactorizedPolynomial.tpp", """        FactorizedPolynomial<P> result(carl::derivative(polynomial(), _var), mpCache);
        result *= coefficient();
		return result;""", """        FactorizedPolynomial<P> result(carl::derivative(polynomial(), _var), mpCache);
		return result;""")],
      demo=POLY + """
#include <carl-extpolys/FactorizedPolynomial.h>
int main() {
	using F = FactorizedPolynomial<P>;
	auto cache = std::make_shared<Cache<PolynomialFactorizationPair<P>>>();
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	P p = (P(x) * P(x) + P(y)) * Q(3);
	F f(p, cache);
	return computePolynomial(f.derivative(x, 1)) == derivative(p, x) ? 0 : 1;
}
"""),
]
