// libs: carl carl-logging
// Functions on multivariate polynomials (C05, C06).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <memory>

using namespace pio;
struct Machine {
	virtual ~Machine() = default;
	virtual J cmd(const J& c) = 0;
};

template<typename C>
struct M : Machine {
	using P = carl::MultivariatePolynomial<C>;
	using U = carl::UnivariatePolynomial<P>;
	using T = carl::Term<C>;
	std::vector<P> r;
	explicit M(std::size_t n) : r(n) {}
	P& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }
	J store(const J& c, const P& p) { reg(c, "d") = p; return outp(reg(c, "d")); }

	static J outv(const U& u) {
		J o = J::arr();
		for (const auto& c : u.coefficients()) o.push(outp(c));
		return o;
	}
	std::map<Variable, C> nums(const J& m) {
		std::map<Variable, C> s;
		for (const auto& e : m) s.emplace(var(e[0]), num<C>(e[1]));
		return s;
	}
	J cmd(const J& c) override {
		const std::string& op = c["op"].s;
		if (op == "lit") {
			std::vector<T> ts;
			for (const auto& t : c["p"]) ts.push_back(term<C>(t));
			P p;
			if (c["how"] == "vec") p = P(std::move(ts));
			else for (auto& t : ts) p += t;
			return store(c, p);
		}
		if (op == "bin") {
			const P &a = reg(c, "a"), &b = reg(c, "b");
			return store(c, c["f"] == "add" ? P(a + b) : c["f"] == "sub" ? P(a - b) : P(a * b));
		}
		if (op == "dump") { J o = J::arr(); for (auto& p : r) o.push(outp(p)); return o; }
		// ---- substitution, evaluation, derivative
		if (op == "subst") return store(c, carl::substitute(reg(c, "a"), var(c["v"]), reg(c, "b")));
		if (op == "substin") { carl::substitute_inplace(reg(c, "a"), var(c["v"]), P(reg(c, "b"))); return outp(reg(c, "a")); }
		if (op == "substm") {
			std::map<Variable, P> s;
			for (const auto& e : c["m"]) s.emplace(var(e[0]), r.at(std::size_t(e[1].i) - 1));
			return store(c, carl::substitute(reg(c, "a"), s));
		}
		if (op == "substn") return store(c, carl::substitute(reg(c, "a"), nums(c["m"])));
		if (op == "substt") {
			std::map<Variable, T> s;
			for (const auto& e : c["m"]) s.emplace(var(e[0]), term<C>(e[1]));
			return store(c, carl::substitute(reg(c, "a"), s));
		}
		if (op == "tsubst") { // a term under numbers
			J o = J::obj();
			auto t = term<C>(c["x"]);
			o.set("t", out(carl::substitute(t, nums(c["m"]))));
			return o;
		}
		if (op == "eval") return out(C(carl::evaluate(reg(c, "a"), nums(c["m"]))));
		if (op == "teval") {
			J o = J::obj();
			auto t = term<C>(c["x"]);
			o.set("t", out(C(carl::evaluate(t, nums(c["m"])))));
			if (t.monomial()) o.set("m", out(C(carl::evaluate(*t.monomial(), nums(c["m"])))));
			return o;
		}
		if (op == "deriv") return store(c, carl::derivative(reg(c, "a"), var(c["v"]), std::size_t(c["n"].i)));
		if (op == "tderiv") {
			J o = J::obj();
			auto t = term<C>(c["x"]);
			o.set("t", out(carl::derivative(t, var(c["v"]), std::size_t(c["n"].i))));
			auto m = carl::derivative(t.monomial(), var(c["v"]), std::size_t(c["n"].i));
			o.set("f", std::to_string(m.first)).set("m", out(m.second));
			return o;
		}
		if (op == "uni") { // univariate view and back
			U u = carl::to_univariate_polynomial(reg(c, "a"), var(c["v"]));
			J o = J::obj();
			o.set("u", outv(u)).set("back", outp(P(u))).set("zero", carl::isZero(u)).set("tdeg", carl::total_degree(u));
			return o;
		}
		if (op == "uni1") {
			need(carl::variables(reg(c, "a")).size() == 1);
			auto u = carl::to_univariate_polynomial(reg(c, "a"));
			J o = J::obj();
			o.set("u", outu(u)).set("v", varIndex(u.mainVar())).set("back", outp(P(u)));
			return o;
		}
		if (op == "usubst" || op == "ueval") need(!reg(c, "b").has(var(c["w"])));
		if (op == "usubst") { // in the univariate view with main variable w
			U u = carl::to_univariate_polynomial(reg(c, "a"), var(c["w"]));
			U x = carl::substitute(u, var(c["v"]), reg(c, "b"));
			U y = u;
			carl::substitute_inplace(y, var(c["v"]), reg(c, "b"));
			J o = J::obj();
			o.set("x", outv(x)).set("y", outv(y));
			return o;
		}
		if (op == "uderiv") {
			U u = carl::to_univariate_polynomial(reg(c, "a"), var(c["w"]));
			return outv(carl::derivative(u, var(c["v"]), std::size_t(c["n"].i)));
		}
		if (op == "ueval") { // main variable replaced by a polynomial
			U u = carl::to_univariate_polynomial(reg(c, "a"), var(c["w"]));
			return outp(P(carl::evaluate(u, reg(c, "b"))));
		}
		if (op == "info") {
			const P& a = reg(c, "a");
			auto one = a.template getVarInfo<true>(var(c["v"]));
			auto cnt = a.template getVarInfo<false>(var(c["v"]));
			auto all = a.template getVarInfo<true>();
			J o = J::obj(), cs = J::arr(), vs = J::arr();
			for (const auto& p : one.coeffs()) cs.push(J::arr({J(p.first), outp(p.second)}));
			o.set("max", one.maxDegree()).set("min", one.minDegree()).set("occ", one.occurence()).set("coeffs", cs);
			o.set("max2", cnt.maxDegree()).set("min2", cnt.minDegree()).set("occ2", cnt.occurence());
			for (const auto& p : all) {
				J e = J::obj(), ec = J::arr();
				for (const auto& q : p.second.coeffs()) ec.push(J::arr({J(q.first), outp(q.second)}));
				e.set("v", varIndex(p.first)).set("max", p.second.maxDegree()).set("min", p.second.minDegree()).set("occ", p.second.occurence()).set("coeffs", ec);
				vs.push(e);
			}
			o.set("all", vs);
			return o;
		}
		if (op == "degs") {
			const P& a = reg(c, "a");
			J o = J::obj();
			o.set("tdeg", carl::total_degree(a)).set("const", carl::is_constant(a)).set("zero", carl::is_zero(a)).set("one", carl::is_one(a)).set("linear", carl::is_linear(a));
			return o;
		}
		// ---- division
		if constexpr (carl::is_field<C>::value) {
			if (op == "try" || op == "utry" || op == "quot" || op == "rem") need(!carl::isZero(reg(c, "b")));
			if (op == "try") {
				P q(7);
				bool ok = carl::try_divide(reg(c, "a"), reg(c, "b"), q);
				J o = J::obj();
				o.set("ok", ok).set("q", outp(q));
				if (ok) { reg(c, "d") = q; }
				return o;
			}
			if (op == "slash") { P q; need(!carl::isZero(reg(c, "b")) && carl::try_divide(reg(c, "a"), reg(c, "b"), q)); return store(c, reg(c, "a") / reg(c, "b")); }
			if (op == "quot") return store(c, carl::quotient(reg(c, "a"), reg(c, "b")));
			if (op == "rem") return store(c, carl::remainder(reg(c, "a"), reg(c, "b")));
			if (op == "divc") return store(c, carl::divide(reg(c, "a"), num<C>(c["c"])));
			if (op == "divu") return store(c, reg(c, "a") / static_cast<unsigned long>(c["n"].i));
			if (op == "norm") return store(c, reg(c, "a").normalize());
			if (op == "spoly") for (auto k : {"a", "b"}) need(!carl::isZero(reg(c, k)) && carl::isOne(reg(c, k).lcoeff()));
			if (op == "spoly") return store(c, carl::SPolynomial(reg(c, "a"), reg(c, "b")));
			if (op == "coprime") {
				const P& a = reg(c, "a");
				need(!carl::isZero(a));
				J o = J::obj();
				o.set("f", out(C(a.coprimeFactor()))).set("p", outp(a.coprimeCoefficients())).set("s", outp(a.coprimeCoefficientsSignPreserving()));
				if (!a.isConstant()) o.set("w", out(C(a.coprimeFactorWithoutConstant())));
				o.set("cont", out(C(a.numericContent()))).set("den", out(a.mainDenom()));
				return o;
			}
			if (op == "utry") {
				U u = carl::to_univariate_polynomial(reg(c, "a"), var(c["v"])), q(var(c["v"]));
				bool ok = carl::try_divide(u, reg(c, "b"), q);
				J o = J::obj();
				o.set("ok", ok).set("q", outv(q));
				return o;
			}
			if (op == "sqrt") {
				P q;
				bool ok = reg(c, "a").sqrt(q);
				J o = J::obj();
				o.set("ok", ok);
				if (ok) o.set("q", outp(q));
				return o;
			}
			if (op == "tdivide") {
				auto t = term<C>(c["x"]);
				T q1, q2;
				J o = J::obj();
				o.set("c", out(carl::divide(t, num<C>(c["c"]))));
				bool k1 = carl::try_divide(t, num<C>(c["c"]), q1), k2 = carl::try_divide(t, var(c["v"]), q2);
				o.set("k1", k1).set("k2", k2);
				if (k1) o.set("q1", out(q1));
				if (k2) o.set("q2", out(q2));
				return o;
			}
		}
		if (op == "prem") need(!carl::isZero(reg(c, "a")) && !carl::isZero(reg(c, "b")));
		if (op == "prem") return store(c, carl::pseudo_remainder(reg(c, "a"), reg(c, "b"), var(c["v"])));
		throw std::logic_error("driver: bad op " + op);
	}
};
static std::unique_ptr<Machine> machine;
static void begin(const J& h) {
	make_vars(h);
	std::size_t n = std::size_t(h["k"].i);
	if (h["ring"] == "Q") machine = std::make_unique<M<mpq_class>>(n);
	else machine = std::make_unique<M<mpz_class>>(n);
}
static J cmd(const J& c) { return machine->cmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
