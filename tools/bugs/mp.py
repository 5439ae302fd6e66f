MP = "src/carl/core/MultivariatePolynomial.tpp"
MPO = "src/carl/core/MultivariatePolynomial_operators.h"
HEAD = '''
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
using P = MultivariatePolynomial<mpq_class>;
'''
BUGS = [
 dict(id="mp-sub-unordered", property="C03",
      needs="a monomial subtracted from a polynomial whose terms are not sorted and whose matching term lies behind a larger one",
      breaks="the matching term is not found, so the polynomial gets two terms with the same monomial",
      edits=[(MP, '''				CompareResult cmpres(Ordering::compare((*it).monomial(), rhs));
				if( mOrdered && cmpres == CompareResult::GREATER ) break;''', '''				CompareResult cmpres(Ordering::compare((*it).monomial(), rhs));
				if( cmpres == CompareResult::GREATER ) break;''')],
      demo=HEAD + '''
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y"), z = freshRealVariable("z");
	bool ok = true;
	for (int k = 0; k < 6; ++k) {
		P p(x);
		if (k & 1) { p += y; p += z; } else { p += z; p += y; }
		p += P(x) * y;
		if (k & 2) p *= P(z) + mpq_class(1);
		for (auto v : {x, y, z}) {
			P q = p;
			q -= createMonomial(v, 1);
			P r = p - P(v);
			if (q != r || q - r != P(0) || q.nrTerms() != r.nrTerms()) ok = false;
		}
	}
	return ok ? 0 : 1;
}
'''),
 dict(id="mp-less-prefix", property="C04",
      needs="two polynomials whose terms agree from the top until one of them ends",
      breaks="neither of the two different polynomials is smaller than the other",
      edits=[(MPO, '''	return rit != rhs.rend();
}
template<typename C, typename O, typename P>
inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {''', '''	return false;
}
template<typename C, typename O, typename P>
inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {''')],
      demo=HEAD + '''
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	P p = P(x) * y + P(x), q = p + mpq_class(3);
	return (p < q) != (q < p) ? 0 : 1;
}
'''),
 dict(id="mp-mul-cancel", property="C03",
      needs="an in-place product of two polynomials with constant terms where the right one's is 1",
      breaks="the constant term of the product is 1 instead of the left constant term",
      edits=[(MP, '''			if (first) {
				newlterm = *t1 * *t2;
				first = false;
			} else mTermAdditionManager''', '''			if (first) {
				newlterm = *t1 * *t2;
				first = false;
			} else if (t2->isConstant() && carl::isOne(t2->coeff()) && t1->isConstant()) {
				mTermAdditionManager.template addTerm<false>(id, TermType(*t2));
			} else mTermAdditionManager''')],
      demo=HEAD + '''
int main() {
	Variable x = freshRealVariable("x"), y = freshRealVariable("y");
	P p = P(x) + mpq_class(7), q = P(y) + mpq_class(1);
	P r = p; r *= q;
	return r == P(x)*y + P(x) + mpq_class(7)*P(y) + mpq_class(7) ? 0 : 1;
}
'''),
]
