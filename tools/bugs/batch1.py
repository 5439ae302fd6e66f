S = "src/carl/"
PF = S + "core/polynomialfunctions/"
POLY = '''
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
using Q = mpq_class;
using P = MultivariatePolynomial<Q>;
using U = UnivariatePolynomial<Q>;
'''
BUGS = [
 dict(id="bv-smod-exact", property="C19",
      needs="a signed modulo whose operands divide exactly and have different signs",
      breaks="the result is the divisor instead of zero",
      edits=[(S + "formula/bitvector/BVValue.cpp", '''	if (u.isZero()) {
		return u;
	} else if (!firstNegative && !secondNegative) {
		return u;
	} else if (firstNegative''', '''	if (!firstNegative && !secondNegative) {
		return u;
	} else if (firstNegative''')],
      demo='''
#include <carl/formula/bitvector/BVValue.h>
using namespace carl;
static long sval(const BVValue& v) { long r = 0; for (std::size_t i = 0; i < v.width(); ++i) if (v[i]) r += 1L << i; return v[v.width() - 1] ? r - (1L << v.width()) : r; }
int main() {
	for (long a = -8; a < 8; ++a) for (long b = -8; b < 8; ++b) {
		if (b == 0) continue;
		long m = ((a % b) + b) % b;
		if (sval(BVValue(4, mpz_class(a)).modSigned(BVValue(4, mpz_class(b)))) != m) return 1;
	}
	return 0;
}
'''),
 dict(id="bitset-complement-default", property="C25",
      needs="the complement of a bitset, looked at beyond the stored bits",
      breaks="the bits beyond the stored ones are not complemented",
      edits=[(S + "util/Bitset.h", "return Bitset(~lhs.mData, !lhs.mDefault);", "return Bitset(~lhs.mData, lhs.mDefault);")],
      demo='''
#include <carl/util/Bitset.h>
using namespace carl;
int main() {
	for (int d = 0; d < 2; ++d) {
		Bitset a(d != 0);
		a.set(1); a.set(3, false);
		Bitset b = ~a;
		for (int i = 0; i < 9; ++i) if (a.test(i) == b.test(i)) return 1;
	}
	return 0;
}
'''),
 dict(id="itv-pow-negative-bounds", property="C12",
      needs="an even power of an interval of negative numbers with one open and one closed end",
      breaks="the result has the open and the closed end exchanged",
      edits=[(S + "interval/power.h", "			if (carl::abs(i.lower()) > carl::abs(i.upper())) {", "			if (carl::abs(i.lower()) > carl::abs(i.upper()) && i.contains(carl::constant_zero<Number>().get())) {")],
      demo='''
#include <carl/interval/Interval.h>
#include <carl/interval/power.h>
#include <carl/numbers/numbers.h>
using namespace carl;
using I = Interval<mpq_class>;
int main() {
	BoundType ts[] = {BoundType::STRICT, BoundType::WEAK};
	for (auto l : ts) for (auto u : ts) for (int a = -3; a < 3; ++a) for (int b = a + 1; b < 4; ++b) {
		I i(mpq_class(a), l, mpq_class(b), u), p = pow(i, 2);
		for (int x = -3; x < 4; ++x) if (i.contains(mpq_class(x)) && !p.contains(mpq_class(x * x))) return 1;
	}
	return 0;
}
'''),
 dict(id="gb-chain-criterion", property="C11",
      needs="an ideal in which a pending pair has the same least common multiple as a pair with the new generator",
      breaks="the pair is dropped although the chain criterion does not apply, so the basis is incomplete",
      edits=[(S + "groebner/gb-buchberger/CriticalPairs.tpp", "if( psLcm->divisible( lm ) && psLcm != spp1->second.mLcm && psLcm != spp2->second.mLcm )", "if( psLcm->divisible( lm ) && ( psLcm != spp1->second.mLcm || psLcm != spp2->second.mLcm ) )")],
      demo=POLY + '''
#include <carl/groebner/groebner.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
using GP = MultivariatePolynomial<Q, GrLexOrdering, StdMultivariatePolynomialPolicies<BVReasons>>;
static unsigned long s = 7;
static int rnd(int n) { s = s * 6364136223846793005ul + 1442695040888963407ul; return int((s >> 33) % n); }
int main() {
	std::vector<Variable> v{freshRealVariable("x"), freshRealVariable("y"), freshRealVariable("z")};
	for (int k = 0; k < 400; ++k) {
		GBProcedure<GP, Buchberger, StdAdding> gb;
		for (int i = 0; i < 4; ++i) {
			GP p;
			for (int j = 0; j < 2; ++j) {
				GP t(Q(rnd(5) - 2));
				for (int d = rnd(3) + 1; d > 0; --d) t *= v[rnd(3)];
				p += t;
			}
			if (!isZero(p)) gb.addPolynomial(p);
		}
		gb.calculate();
		auto& gs = gb.getIdeal().getGenerators();
		for (auto& a : gs) for (auto& b : gs) {
			if (a == b || a.isConstant() || b.isConstant()) continue;
			GP sp = carl::SPolynomial(a, b);
			Reductor<GP, GP> r(gb.getIdeal(), sp);
			if (!isZero(r.fullReduce())) return 1;
		}
	}
	return 0;
}
''', timeout=200),
 dict(id="root-bound-rounded-down", property="C09",
      needs="a polynomial whose bound needs a root that is not rational",
      breaks="the root is rounded down, so a positive root can exceed the reported upper bound",
      edits=[(PF + "RootBounds.h", '''		auto cur = carl::abs(p.coefficients()[p.degree()-i]) / carl::abs(lc);
		if (i > 1) {
			cur = carl::root_safe(cur, i).second;
		}
		max = std::max(max, cur);
	}
	return 2 * max;
}

/**
 * Computes a lower bound''', '''		auto cur = carl::abs(p.coefficients()[p.degree()-i]) / carl::abs(lc);
		if (i > 1) {
			cur = carl::root_safe(cur, i).first;
		}
		max = std::max(max, cur);
	}
	return 2 * max;
}

/**
 * Computes a lower bound''')],
      demo=POLY + '''
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
int main() {
	Variable x = freshRealVariable("x");
	// (x - a)(x + b): its positive root is a
	for (int n = 1; n < 40; ++n) for (int d = 1; d < 40; ++d) for (int m = 0; m < 6; ++m) {
		Q a(n, d), b(m, 7);
		a.canonicalize(); b.canonicalize();
		U p(x, std::vector<Q>{Q(-a * b), Q(b - a), Q(1)});
		if (lagrangePositiveUpperBound(p) < a) return 1;
		U q(x, std::vector<Q>{Q(-a * a), Q(0), Q(1)});
		if (lagrangePositiveUpperBound(q) < a) return 1;
	}
	return 0;
}
'''),
 dict(id="content-zero-coefficient", property="C36",
      needs="a polynomial in which some power of the main variable does not occur between others",
      breaks="the content ignores the coefficients below the gap, so the gcd has too many factors",
      edits=[(PF + "Content.h", '''		if (isZero(*it)) {
			continue;
		}''', '''		if (isZero(*it)) {
			break;
		}''')],
      demo=POLY + '''
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	P X(x), Y(y);
	std::vector<P> ps{X * X * Y + Y + Q(1), X * X * X * Y + X * Y + Y * Y, X * X * X * Y * Y + Y, X * X * Y + X * Y * Y};
	for (auto& p : ps) {
		auto u = to_univariate_polynomial(p, x).normalized();
		P c = content(u), q;
		for (const auto& k : u.coefficients()) if (!isZero(k) && !try_divide(k, c, q)) return 1;
	}
	return 0;
}
'''),
]
