// libs: carl carl-logging
// Horner schemes, sums of squares, definiteness, Chebyshev polynomials, diophantine equations (C31).
#include "polyio.h"
#include <carl/core/DiophantineEquation.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Chebyshev.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>

using Q = mpq_class;
using Z = mpz_class;
using P = carl::MultivariatePolynomial<Q>;
template<carl::variableSelectionHeurisics H> struct Strat {
	static constexpr carl::variableSelectionHeurisics selectionType = H;
	static constexpr double targetDiameter = 0.1;
	static constexpr bool use_arithmeticOperationsCounter = false;
};
template<typename H> static J tree(const H& h) {
	J o = J::obj();
	if (h.getVariable() == carl::Variable::NO_VARIABLE) { o.set("v", J(0L)); o.set("ic", pio::out(h.getIndepConstant())); return o; }
	o.set("v", J(long(pio::varIndex(h.getVariable())))); o.set("e", J(long(h.getExponent())));
	o.set("hasd", J(bool(h.getDependent()))); o.set("hasi", J(bool(h.getIndependent())));
	if (h.getDependent()) o.set("d", tree(*h.getDependent())); else o.set("dc", pio::out(h.getDepConstant()));
	if (h.getIndependent()) o.set("i", tree(*h.getIndependent())); else o.set("ic", pio::out(h.getIndepConstant()));
	return o;
}
template<carl::variableSelectionHeurisics H> static J horner(const P& p) { carl::MultivariateHorner<P, Strat<H>> h(p); return tree(h); }
template<typename T> static std::string str(const T& t) { std::stringstream s; s << t; return s.str(); }

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J o = J::obj();
	if (op == "horner") {
		P p = pio::poly<P>(c["p"]);
		switch (c["h"].i) { case 0: return horner<carl::GREEDY_I>(p); case 1: return horner<carl::GREEDY_Is>(p); case 2: return horner<carl::GREEDY_II>(p); default: return horner<carl::GREEDY_IIs>(p); }
	}
	if (op == "sos") {
		P p = pio::poly<P>(c["p"]);
		J l = J::arr();
		for (const auto& s : carl::sos_decomposition(p, c["nt"].b)) { J x = J::obj(); x.set("c", pio::out(s.first)); x.set("p", pio::outp(s.second)); l.push(x); }
		o.set("l", l);
		return o;
	}
	if (op == "def") {
		P p = pio::poly<P>(c["p"]);
		o.set("full", J(str(carl::definiteness(p)))); o.set("quick", J(str(carl::definiteness(p, false))));
		J l = J::arr();
		for (const auto& t : p) { J x = J::obj(); J w = J::arr(); w.push(pio::outp(P(t))[0][0]); w.push(pio::out(t.coeff())); x.set("t", w); x.set("d", J(str(carl::definiteness(t)))); l.push(x); }
		o.set("terms", l);
		return o;
	}
	if (op == "cheb") {
		carl::Chebyshev<Q> ch(pio::var(1));
		auto p = ch(std::size_t(c["n"].i));
		J l = J::arr();
		for (const auto& x : p.coefficients()) l.push(pio::out(x));
		o.set("c", l);
		return o;
	}
	if (op == "xgcd") {
		Z s, t, g = carl::extended_gcd_integer<Z>(Z(c["a"].s), Z(c["b"].s), s, t);
		o.set("g", J(g.get_str())); o.set("s", J(s.get_str())); o.set("t", J(t.get_str()));
		return o;
	}
	if (op == "dio") {
		using PZ = carl::MultivariatePolynomial<Z>;
		Z k(c["c"].s), g = 0;
		for (const J& x : c["a"]) g = gcd(g, Z(x.s));
		need(k == 0 || (g != 0 && k % g == 0));
		PZ p;
		int i = 1;
		for (const J& x : c["a"]) p += carl::Term<Z>(Z(x.s), pio::var(i++), 1);
		if (k != 0) p += PZ(k);
		auto r = carl::solveDiophantine(p);
		J a = J::arr(), x = J::arr();
		for (const auto& t : p) if (t.monomial()) a.push(J(t.coeff().get_str()));
		for (const auto& z : r) x.push(J(z.get_str()));
		o.set("a", a); o.set("x", x);
		return o;
	}
	throw std::runtime_error("unknown op " + op);
}
static void begin(const J& h) { pio::make_vars(h); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
