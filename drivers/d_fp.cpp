// libs: carl carl-logging
// Factorised polynomials: registers sharing one cache (C35).
#include "polyio.h"
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/evaluation.h>
#include <carl-extpolys/substitution.h>

using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using F = carl::FactorizedPolynomial<P>;
using Cache = carl::Cache<carl::PolynomialFactorizationPair<P>>;
static std::shared_ptr<Cache> cache;
static std::vector<F> reg;
static F& at(const J& i) { return reg.at(std::size_t(i.i) - 1); }
static J show(const F& x) { return pio::outp(carl::computePolynomial(x)); }
static J put(const J& d, const F& x) { at(d) = x; return show(at(d)); }

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J o = J::obj();
	if (op == "new") {
		P p = pio::poly<P>(c["p"]);
		if (c["how"].s == "num") return put(c["d"], F(Q(p.constantPart())));
		return put(c["d"], F(p, cache));
	}
	if (op == "bin") {
		F &a = at(c["a"]), &b = at(c["b"]);
		const std::string& f = c["f"].s;
		bool ip = c["ip"].b;
		F x;
		if (f == "add") x = ip ? (a += b) : a + b;
		else if (f == "sub") x = ip ? (a -= b) : a - b;
		else x = ip ? (a *= b) : a * b;
		if (!ip) at(c["d"]) = x;
		return show(ip ? a : at(c["d"]));
	}
	if (op == "num") {
		F& a = at(c["a"]);
		const std::string& f = c["f"].s;
		Q n = pio::rat(c["c"]);
		bool ip = c["ip"].b, left = c["left"].b;
		F x;
		if (f == "add") x = ip ? (a += n) : left ? n + a : a + n;
		else if (f == "sub") x = ip ? (a -= n) : left ? n - a : a - n;
		else if (f == "mul") x = ip ? (a *= n) : left ? n * a : a * n;
		else { need(n != 0); x = ip ? (a /= n) : left ? a.divideBy(n) : a / n; }
		if (!ip) at(c["d"]) = x;
		return show(ip ? a : at(c["d"]));
	}
	if (op == "neg") return put(c["d"], -at(c["a"]));
	if (op == "pow") return put(c["d"], at(c["a"]).pow(unsigned(c["n"].i)));
	if (op == "der") return put(c["d"], at(c["a"]).derivative(pio::var(c["v"]), unsigned(c["n"].i)));
	if (op == "copy") { if (c["mv"].b) { F t(at(c["a"])); F u(std::move(t)); return put(c["d"], u); } return put(c["d"], at(c["a"])); }
	if (op == "gcd") {
		F &a = at(c["a"]), &b = at(c["b"]);
		need(!carl::isZero(a) && !carl::isZero(b));
		F ra, rb;
		F g = c["rest"].b ? carl::gcd(a, b, ra, rb) : carl::gcd(a, b);
		o.set("g", show(g)); o.set("a", show(a)); o.set("b", show(b));
		if (c["rest"].b) { o.set("ra", show(ra)); o.set("rb", show(rb)); }
		at(c["d"]) = g;
		return o;
	}
	if (op == "lcm" || op == "cm" || op == "cd") {
		F &a = at(c["a"]), &b = at(c["b"]);
		need(!carl::isZero(a) && !carl::isZero(b));
		F g = op == "lcm" ? carl::lcm(a, b) : op == "cm" ? carl::commonMultiple(a, b) : carl::commonDivisor(a, b);
		o.set("a", show(a)); o.set("b", show(b));
		at(c["d"]) = g;
		o.set("g", show(g));
		return o;
	}
	if (op == "lazy") {
		F &a = at(c["a"]), &b = at(c["b"]);
		need(!carl::isZero(b));
		auto x = carl::lazyDiv(a, b);
		o.set("n", show(x.first)); o.set("d", show(x.second));
		return o;
	}
	if (op == "quo") {   // of a product, by a factor
		F &a = at(c["a"]), &b = at(c["b"]);
		need(!carl::isZero(b));
		F x = a * b;
		return put(c["d"], c["ip"].b ? (x /= b) : carl::quotient(x, b));
	}
	if (op == "factor") {
		F& a = at(c["a"]);
		need(!a.isConstant());
		J l = J::arr();
		for (const auto& f : a.factorization()) { J e = J::obj(); e.set("p", show(f.first)); e.set("e", J(long(f.second))); l.push(e); }
		o.set("l", l); o.set("c", pio::out(a.coefficient()));
		return o;
	}
	if (op == "eval" || op == "subst") {
		std::map<carl::Variable, Q> m;
		for (const J& x : c["m"]) m[pio::var(x[0])] = pio::rat(x[1]);
		if (op == "eval") { o.set("v", pio::out(carl::evaluate(at(c["a"]), m))); return o; }
		return put(c["d"], carl::substitute(at(c["a"]), m));
	}
	if (op == "view") {
		const F& a = at(c["a"]);
		o.set("p", show(a)); o.set("pc", pio::outp(a.polynomialWithCoefficient())); o.set("cast", pio::outp(P(a)));
		o.set("const", J(a.isConstant())); o.set("one", J(a.isOne())); o.set("zero", J(a.isZero()));
		o.set("deg", J(long(a.isZero() ? 0 : a.totalDegree()))); o.set("cp", pio::out(a.constantPart())); o.set("hasc", J(a.hasConstantTerm()));
		o.set("lc", pio::out(a.lcoeff())); o.set("lin", J(a.isLinear()));
		o.set("terms", J(long(a.isConstant() ? (a.isZero() ? 0 : 1) : a.nrTerms())));
		J h = J::arr();
		for (auto v : pio::vars()) h.push(J(a.has(v)));
		o.set("has", h); o.set("uni", J(a.isUnivariate()));
		return o;
	}
	if (op == "cmp") {
		const F &a = at(c["a"]), &b = at(c["b"]);
		Q n = pio::rat(c["c"]);
		o.set("eq", J(a == b)); o.set("ne", J(a != b)); o.set("lt", J(a < b)); o.set("gt", J(a > b)); o.set("le", J(a <= b)); o.set("ge", J(a >= b));
		o.set("neq", J(a == n && n == a)); o.set("nne", J(a != n && n != a));
		return o;
	}
	throw std::logic_error("driver: unknown op " + op);
}
static void begin(const J& h) { pio::make_vars(h); cache = std::make_shared<Cache>(); reg.resize(std::size_t(h["k"].i)); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
