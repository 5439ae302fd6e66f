// libs: carl carl-logging
// Root counting, root bounds, root elimination (C09) and factorisation (C10).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/RootElimination.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/interval/Interval.h>

using namespace pio;
using Q = mpq_class;
using U = carl::UnivariatePolynomial<Q>;
using UZ = carl::UnivariatePolynomial<mpz_class>;
using MPQ = carl::MultivariatePolynomial<Q>;
static Variable x;

static carl::BoundType bt(const J& j) { return j == "S" ? carl::BoundType::STRICT : j == "W" ? carl::BoundType::WEAK : carl::BoundType::INFTY; }
static carl::Interval<Q> ivl(const J& v) { return carl::Interval<Q>(rat(v[0]), bt(v[1]), rat(v[2]), bt(v[3])); }
static void begin(const J& h) { make_vars(h); x = vars()[0]; }
template<typename F> static J outf(const F& f) {
	J o = J::arr();
	for (const auto& p : f) o.push(J::arr({outu(p.first), J(long(p.second))}));
	return o;
}

// Refuses to be dereferenced outside its range.
struct It {
	const std::vector<carl::Sign>& v;
	std::size_t i;
	carl::Sign operator*() const { if (i >= v.size()) throw std::runtime_error("read behind the range"); return v[i]; }
	It& operator++() { ++i; return *this; }
	bool operator!=(const It& o) const { return i != o.i; }
	bool operator==(const It& o) const { return i == o.i; }
};

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "mfact") {
		MPQ p = poly<MPQ>(c["m"]);
		J o = J::obj(), f = J::arr(), i = J::arr();
		for (const auto& q : carl::factorization(p, c["cons"].b)) f.push(J::arr({outp(q.first), J(long(q.second))}));
		for (const auto& q : carl::irreducibleFactors(p, c["cons"].b)) i.push(outp(q));
		return o.set("f", f).set("i", i).set("s", outp(carl::squareFreePart(p)));
	}
	if (op == "signs") {
		std::vector<Q> l;
		for (const auto& j : c["l"]) l.push_back(rat(j));
		std::vector<carl::Sign> s;
		for (const auto& q : l) s.push_back(carl::sgn(q));
		return J::obj().set("f", J(long(carl::sign_variations(l.begin(), l.end(), [](const Q& q) { return carl::sgn(q); })))).set("s", J(long(carl::sign_variations(It{s, 0}, It{s, s.size()}))));
	}
	U p = upoly<Q>(x, c["p"]);
	if (op == "count") {
		need(!carl::isZero(p));
		auto iv = ivl(c["iv"]);
		need(!carl::is_root_of(p, iv.lower()) && !carl::is_root_of(p, iv.upper()));
		return J::obj().set("n", J(long(carl::count_real_roots(p, iv)))).set("seqn", J(long(carl::count_real_roots(carl::sturm_sequence(p), iv))));
	}
	if (op == "desc") {
		need(!carl::isZero(p));
		return J(long(carl::sign_variations(p, ivl(c["iv"]))));
	}
	if (op == "bounds") {
		need(!carl::isZero(p));
		return J::obj().set("cauchy", out(carl::cauchyBound(p))).set("hirst", out(carl::hirstMaceyBound(p))).set("lagr", out(carl::lagrangeBound(p)))
			.set("lpu", out(carl::lagrangePositiveUpperBound(p))).set("lpl", out(carl::lagrangePositiveLowerBound(p))).set("lnu", out(carl::lagrangeNegativeUpperBound(p)));
	}
	if (op == "sturm") {
		J o = J::arr();
		for (const auto& q : c["two"].b ? carl::sturm_sequence(p, upoly<Q>(x, c["q"])) : carl::sturm_sequence(p)) o.push(outu(q));
		return o;
	}
	if (op == "zero") { need(!carl::isZero(p)); carl::eliminate_zero_root(p); return outu(p); }
	if (op == "elim") { need(!carl::isZero(p)); need(carl::is_root_of(p, rat(c["c"]))); carl::eliminate_root(p, rat(c["c"])); return outu(p); }
	if (op == "sqf") {
		J o = J::obj();
		o.set("q", outu(carl::squareFreePart(p)));
		return o;
	}
	if (op == "sff") {
		need(!carl::isZero(p) && !carl::is_constant(p));
		J o = J::arr();
		for (const auto& q : carl::squareFreeFactorization(p)) o.push(J::arr({outu(q.second), J(long(q.first))}));
		return o;
	}
	if (op == "fact") { need(!carl::isZero(p)); return outf(carl::factorization(p)); }
	throw std::runtime_error("op " + op);
}

int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
