// libs: carl carl-logging
// shim
// Resultants, subresultants, discriminants (C08).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Resultant.h>

using namespace pio;
using C = mpq_class;
using P = carl::MultivariatePolynomial<C>;
using U = carl::UnivariatePolynomial<P>;

static carl::SubresultantStrategy strategy(const std::string& s) {
	return s == "generic" ? carl::SubresultantStrategy::Generic : s == "lazard" ? carl::SubresultantStrategy::Lazard : carl::SubresultantStrategy::Ducos;
}
// Univariate polynomials in the first variable, their coefficients in the others.
static U up(const J& j) {
	std::vector<P> c; for (const auto& x : j) c.push_back(poly<P>(x));
	return U(vars().at(0), std::move(c));
}
static J coeffs(const U& u) { J a = J::arr(); for (const auto& c : u.coefficients()) a.push(outp(c)); return a; }
static J one(const U& u) { if (u.mainVar() != vars().at(0)) throw std::logic_error("driver: main variable"); return coeffs(u); }
static void begin(const J& h) { vars().clear(); make_vars(h); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	auto st = strategy(c["st"].s);
	U p = up(c["p"]);
	if (op == "disc") { need(p.degree() >= 1); return one(carl::discriminant(p, st)); }
	U q = up(c["q"]);
	need(!carl::isZero(p) && !carl::isZero(q));
	if (op == "res") return one(carl::resultant(p, q, st));
	if (op == "sub") { J a = J::arr(); for (const auto& s : carl::subresultants(p, q, st)) a.push(one(s)); return a; }
	if (op == "psc") { J a = J::arr(); for (const auto& s : carl::principalSubresultantsCoefficients(p, q, st)) a.push(one(s)); return a; }
	throw std::logic_error("driver: op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
