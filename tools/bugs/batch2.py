import sys
S = "src/carl/"
PF = S + "core/polynomialfunctions/"
import os
SHIM = open(os.path.dirname(os.path.abspath(sys.argv[1])) + '/../../drivers/shim.h').read().replace('#pragma once\n', '')  # stand-ins for what needs CoCoALib
POLY = '''
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
using Q = mpq_class;
using P = MultivariatePolynomial<Q>;
using U = UnivariatePolynomial<Q>;
'''
FORM = SHIM + POLY + '''
#include <carl/formula/Formula.h>
using F = Formula<P>;
'''
BUGS = [
 dict(id="deriv-monomial-high-order", property="C05",
      needs="a derivative of order four or more with respect to a variable whose exponent equals the order",
      breaks="the constant factor of the derivative is order * (order - 1) instead of the factorial",
      edits=[(PF + "Derivative.h", '''	} else if (it->second == n) {
		std::size_t factor = detail_derivative::multiply(it->second, n);''', '''	} else if (it->second == n) {
		std::size_t factor = n > 1 ? n * (n - 1) : n;''')],
      demo=POLY + '''
#include <carl/core/MonomialPool.h>
#include <carl/core/polynomialfunctions/Derivative.h>
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	Monomial::Arg m = createMonomial(x, 4) * createMonomial(y, 1);
	std::size_t factor = 1;
	Monomial::Arg d = m;
	for (int i = 1; i <= 4; ++i) {
		auto step = derivative(d, x);
		factor *= step.first;
		d = step.second;
		auto r = derivative(m, x, i);
		if (r.first != factor || r.second != d) return 1;
	}
	return 0;
}
'''),
 dict(id="formula-xor-repeats", property="C22",
      needs="an exclusive or in which an argument occurs an odd number of times, at least three",
      breaks="all the occurrences are dropped instead of all but one",
      edits=[(S + "formula/FormulaPool.tpp", "if( _type == FormulaType::XOR && (pos + 1 - numOfEqualSubformulas) % 2 == 0 )", "if( _type == FormulaType::XOR && pos > numOfEqualSubformulas )")],
      demo=FORM + '''
int main() {
	F a(freshBooleanVariable("a")), b(freshBooleanVariable("b"));
	F three(FormulaType::XOR, Formulas<P>{a, a, a});
	F two(FormulaType::XOR, Formulas<P>{a, a});
	if (!(three == a)) return 1;
	return two == F(FormulaType::FALSE) ? 0 : 1;
}
'''),
 dict(id="formula-iff-true-false", property="C22",
      needs="an equivalence of three or more arguments containing both true and false",
      breaks="it is simplified to the negated rest instead of false",
      edits=[(S + "formula/FormulaPool.tpp", '''                    if( _subformulas[0].isTrue() )
                        return falseFormula();
                    negateResult = true;''', '''                    negateResult = true;''')],
      demo=FORM + '''
int main() {
	F a(freshBooleanVariable("a")), t(FormulaType::TRUE), f(FormulaType::FALSE);
	return F(FormulaType::IFF, Formulas<P>{t, f, a}) == f ? 0 : 1;
}
'''),
 dict(id="constraint-leq-touching-zero", property="C21",
      needs="a weak constraint whose value range over the box touches zero with a closed bound",
      breaks="the constraint is reported inconsistent with the box although a point of it satisfies it",
      edits=[(S + "formula/Constraint.tpp", '''                    if( solutionSpace.upperBoundType() != BoundType::INFTY && solutionSpace.upper() <= 0)
                        return 1;
                    if( solutionSpace.lowerBoundType() != BoundType::INFTY )
                    {
                        if( solutionSpace.lower() > 0 )
                            return 0;
                        else if( solutionSpace.lower() == 0 && solutionSpace.lowerBoundType() == BoundType::STRICT )
                            return 0;
                    }''', '''                    if( solutionSpace.upperBoundType() != BoundType::INFTY && solutionSpace.upper() <= 0)
                        return 1;
                    if( solutionSpace.lowerBoundType() != BoundType::INFTY )
                    {
                        if( solutionSpace.lower() >= 0 )
                            return 0;
                    }''')],
      demo=FORM + '''
#include <carl/interval/Interval.h>
int main() {
	Variable x = freshRealVariable("x");
	for (auto r : {Relation::GEQ, Relation::LEQ}) for (Q a : {Q(1), Q(-1)}) {
		Constraint<P> c(P(x) * a, r);
		for (int lo : {0, 1}) {
			EvaluationMap<Interval<double>> m;
			m.emplace(x, Interval<double>(double(lo - 1), BoundType::WEAK, double(lo), BoundType::WEAK));
			if (c.consistentWith(m) == 0) return 1;      // zero satisfies it
		}
	}
	return 0;
}
'''),
 dict(id="rf-add-constant-denominator", property="C34",
      needs="a sum whose left operand has a polynomial denominator and whose right operand has a constant one other than one",
      breaks="the denominator of the right operand is lost",
      edits=[("src/carl-extpolys/RationalFunction.tpp", '''				mPolynomialQuotient->first += rhs.nominatorAsPolynomial() * denominatorAsPolynomial();
			mPolynomialQuotient->second *= rhs.denominatorAsPolynomial().constantPart();
''', '''				mPolynomialQuotient->first += rhs.nominatorAsPolynomial() * denominatorAsPolynomial();
''')],
      demo=POLY + '''
#include <carl-extpolys/RationalFunction.h>
int main() {
	using R = RationalFunction<P>;
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	R a(P(Q(1)), P(x)), b(P(y), P(Q(2)));
	R c = a + b;
	// (2 + x*y) / (2*x)
	return c.nominator() * (P(Q(2)) * P(x)) == c.denominator() * (P(Q(2)) + P(x) * P(y)) ? 0 : 1;
}
'''),
 dict(id="model-negated-assignment", property="C29",
      needs="a negated variable assignment evaluated on a model that gives the variable a value",
      breaks="the negation is ignored",
      edits=[("src/carl-model/evaluation/ModelEvaluation_Formula.h", "		if (va.negated()) f = f.negated();\n", "")],
      demo=FORM + '''
#include <carl-model/Model.h>
#include <carl-model/Assignment.h>
#include <carl-model/evaluation/ModelEvaluation.h>
int main() {
	using R = Q;
	Variable x = freshRealVariable("x");
	Model<R, P> m;
	m.emplace(x, Q(2));
	F eq(VariableAssignment<P>(x, RealAlgebraicNumber<Q>(Q(2)), false));
	F ne(VariableAssignment<P>(x, RealAlgebraicNumber<Q>(Q(2)), true));
	if (!model::evaluate(eq, m).asBool()) return 1;
	return model::evaluate(ne, m).asBool() ? 1 : 0;
}
''', link=["-lcarl-model"]),
 dict(id="ran-contained-in-upper", property="C28",
      needs="an interval whose upper bound lies inside the isolating interval of the number, above the number",
      breaks="the number is reported to be outside the interval",
      edits=[(S + "ran/interval/ran_interval.h", '''		if (!is_numeric() && interval_int().contains(i.upper())) {
			refine_internal(i.upper());
		}
''', "")],
      demo=SHIM + POLY + '''
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>
int main() {
	Variable x = freshRealVariable("x");
	for (int k = 2; k < 40; ++k) {
		U p(x, std::vector<Q>{Q(-k), 0, 1});
		auto rs = real_roots(p).roots();
		for (int i = 0; i < 60; ++i) {
			auto fresh = real_roots(p).roots();
			Q b(i, 8);
			auto& r = fresh.back();
			bool in = Q(k) <= b * b;
			if (r.contained_in(Interval<Q>(Q(0), BoundType::WEAK, b, BoundType::WEAK)) != in) return 1;
		}
	}
	return 0;
}
'''),
 dict(id="vs-sqrt-neq-both-negative", property="C26",
      needs="an inequation into which a square root expression is substituted, with both parts negative and of equal absolute value",
      breaks="the case in which both parts are negative is missing, so solutions are lost",
      edits=[(S + "vs/substitute.tpp", '''            // Add conjunction (q<0 and r<0) to the substitution result.
            _result.emplace_back();
            _result.back().push_back( Constraint<Poly>( _q, Relation::LESS ) );
            _result.back().push_back( Constraint<Poly>( _r, Relation::LESS ) );
            // Add conjunction (q^2-r^2*radicand!=0)''', '''            // Add conjunction (q^2-r^2*radicand!=0)''')],
      demo=FORM + '''
#include <map>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/interval/Interval.h>
#include <carl/vs/SqrtEx.h>
namespace smtrat {
using Rational = Q;
using Poly = P;
using Factorization = carl::Factors<Poly>;
using SqrtEx = carl::SqrtEx<Poly>;
}
#include <carl/vs/substitute.h>
int main() {
	Variable x = freshRealVariable("x"), q = freshRealVariable("q"), r = freshRealVariable("r"), w = freshRealVariable("w");
	auto t = vs::Term<P>::normal(SqrtEx<P>(P(q), P(r), P(Q(1)), P(w)));
	auto res = vs::substitute(Constraint<P>(P(x), Relation::NEQ), x, t);
	if (!res) return 3;
	std::map<Variable, Q> at{{q, Q(-2)}, {r, Q(-1)}, {w, Q(4)}};
	for (const auto& c : *res) {
		bool all = true;
		for (const auto& k : c) if (k.satisfiedBy(at) != 1) all = false;
		if (all) return 0;
	}
	return 1;
}
'''),
 dict(id="bv-div-zero-negative", property="C20",
      needs="a signed division term with a constant negative dividend and the constant divisor zero",
      breaks="the term denotes minus one instead of one",
      edits=[(S + "formula/bitvector/BVTermPool.cpp", "return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));", "return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));")],
      demo='''
#include <carl/formula/bitvector/BVTerm.h>
using namespace carl;
int main() {
	BVTerm a(BVTermType::CONSTANT, BVValue(4, 12)), z(BVTermType::CONSTANT, BVValue(4, 0));
	BVTerm d(BVTermType::DIV_S, a, z);
	return d.isConstant() && d.value() == BVValue(4, 1) ? 0 : 1;
}
'''),
 dict(id="smtlib-integer-denominator", property="C17",
      needs="a negative fraction written in prefix notation",
      breaks="the sign is written in front of the fraction without the space",
      edits=[(S + "numbers/adaption_gmpxx/operations.cpp", '''        bool negative = (_number < mpq_class(0));
        if(negative) s << "(-" << (_infix ? "" : " ");''', '''        bool negative = (_number < mpq_class(0));
        if(negative) s << "(-" << (_infix || carl::getDenom(_number) != mpz_class(1) ? "" : " ");''')],
      demo='''
#include <carl/numbers/numbers.h>
int main() { return carl::toString(mpq_class(-3, 2), false) == "(- (/ 3 2))" ? 0 : 1; }
'''),
 dict(id="resultant-lazard-power", property="C08",
      needs="subresultants of two polynomials whose degrees differ by two or more at a later step with strategy Ducos or Lazard",
      breaks="the reduced subresultant misses a power of the leading coefficient",
      edits=[(PF + "Resultant.h", "if (res && deltaReduced >= exponent) {", "if (res && deltaReduced > exponent) {")],
      demo=POLY + '''
#include <carl/core/polynomialfunctions/Resultant.h>
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	using M = UnivariatePolynomial<P>;
	std::vector<P> a(8), b(7);
	a[7] = P(3); a[1] = P(y); a[0] = P(2);
	b[6] = P(2); b[1] = P(5) * P(y); b[0] = P(-1);
	M p(x, a), q(x, b);
	auto g = subresultants(p, q, SubresultantStrategy::Generic), l = subresultants(p, q, SubresultantStrategy::Lazard);
	if (g.size() != l.size()) return 1;
	auto i = g.begin(); auto j = l.begin();
	for (; i != g.end(); ++i, ++j) if (!(*i == *j)) return 1;
	return 0;
}
'''),
]
