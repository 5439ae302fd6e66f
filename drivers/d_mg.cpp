// libs: carl carl-logging
// Common divisors and factors of multivariate polynomials (C36).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Complexity.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/GCD.h>
#include <carl/core/polynomialfunctions/GCD_Term.h>
#include <carl/core/polynomialfunctions/LCM.h>
#include <carl/core/polynomialfunctions/PrimitiveEuclidean.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/Representation.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>

using namespace pio;
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using U = carl::UnivariatePolynomial<P>;
using T = carl::Term<Q>;

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J o = J::obj();
	if (op == "gcd") {
		P p = poly<P>(c["p"]), q = poly<P>(c["q"]);
		need(!carl::isZero(p) && !carl::isZero(q));
		o.set("g", outp(carl::gcd(p, q))).set("l", outp(carl::lcm(p, q)));
		return o;
	}
	if (op == "ugcd") {
		P p = poly<P>(c["p"]), q = poly<P>(c["q"]);
		need(!carl::isZero(p) && !carl::isZero(q));
		U a = carl::to_univariate_polynomial(p, var(c["v"])), b = carl::to_univariate_polynomial(q, var(c["v"]));
		o.set("g", outp(P(carl::primitive_euclidean(a.normalized(), b.normalized()))));
		return o;
	}
	if (op == "cont") {
		P p = poly<P>(c["p"]);
		U a = carl::to_univariate_polynomial(p, var(c["v"]));
		need(!carl::isZero(p));
		U n = a.normalized();
		o.set("n", outp(P(n))).set("c", outp(carl::content(n))).set("p", outp(P(carl::primitive_part(n))));
		return o;
	}
	if (op == "fact") {
		P p = poly<P>(c["p"]);
		need(!carl::isZero(p));
		J l = J::arr(), i = J::arr();
		for (const auto& f : carl::factorization(p, c["inc"].b)) { J x = J::obj(); x.set("p", outp(f.first)).set("e", std::int64_t(f.second)); l.push(x); }
		for (const auto& f : carl::irreducibleFactors(p, c["inc"].b)) i.push(outp(f));
		o.set("l", l).set("i", i).set("s", outp(carl::squareFreePart(p)));
		return o;
	}
	if (op == "term") {
		T s = term<Q>(c["s"]), t = term<Q>(c["t"]);
		need(!carl::isZero(s) && !carl::isZero(t));
		o.set("tt", out(carl::gcd(s, t)));
		return o;
	}
	if (op == "repr") {
		P p = poly<P>(c["p"]);
		U a = carl::to_univariate_polynomial(p, var(c["v"]));
		U s = carl::switch_main_variable(a, var(c["w"]));
		o.set("s", outp(P(s))).set("sm", s.mainVar() == var(c["w"]));
		o.set("c", std::int64_t(carl::complexity(p)));
		return o;
	}
	throw std::logic_error("driver: bad op " + op);
}
static void begin(const J& h) { make_vars(h); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
