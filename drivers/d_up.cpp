// libs: carl carl-logging
// Register machine over univariate polynomials (C07).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/GCD_univariate.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <memory>

using namespace pio;
struct Machine {
	virtual ~Machine() = default;
	virtual J cmd(const J& c) = 0;
};
using MPQ = carl::MultivariatePolynomial<mpq_class>;

template<typename C>
struct M : Machine {
	static constexpr bool isQ = std::is_same<C, mpq_class>::value;
	static constexpr bool isZ = std::is_same<C, mpz_class>::value;
	static constexpr bool isP = !isQ && !isZ;
	using U = carl::UnivariatePolynomial<C>;
	Variable x;
	std::vector<U> r;
	M(std::size_t n, Variable v) : x(v), r(n, U(v)) {}
	U& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }

	static C co(const J& j) { if constexpr (isP) return poly<MPQ>(j); else return num<C>(j); }
	template<typename X> static J oc(const X& c) { if constexpr (std::is_same<X, MPQ>::value) return outp(c); else return out(c); }
	template<typename X> static J ou(const carl::UnivariatePolynomial<X>& u) {
		J o = J::arr();
		for (const auto& c : u.coefficients()) o.push(oc(c));
		return o;
	}
	J store(const J& c, const U& p) { reg(c, "d") = p; return ou(reg(c, "d")); }

	U lit(const J& c) {
		const std::string& how = c["how"].s;
		std::vector<C> cs;
		for (const auto& j : c["p"]) cs.push_back(co(j));
		if (how == "vec") return U(x, cs);
		if (how == "move") return U(x, std::move(cs));
		if (how == "init") {
			if (cs.size() == 1) return U(x, {cs[0]});
			if (cs.size() == 2) return U(x, {cs[0], cs[1]});
			if (cs.size() == 3) return U(x, {cs[0], cs[1], cs[2]});
			return U(x, cs);
		}
		if (how == "map") {
			std::map<carl::uint, C> m;
			for (std::size_t i = 0; i < cs.size(); ++i) if (!carl::isZero(cs[i]) || c["zeros"].b) m.emplace(i, cs[i]);
			return U(x, m);
		}
		U p(x);
		if (how == "mono") { for (std::size_t i = 0; i < cs.size(); ++i) p += U(x, cs[i], i); return p; }
		if (how == "horner") { for (std::size_t i = cs.size(); i-- > 0;) { p *= x; p += cs[i]; } return p; }
		throw std::logic_error("driver: bad how");
	}
	J cmd(const J& c) override {
		const std::string& op = c["op"].s;
		if (op == "lit") return store(c, lit(c));
		if (op == "bin") {
			const U &a = reg(c, "a"), &b = reg(c, "b");
			return store(c, c["f"] == "add" ? a + b : c["f"] == "sub" ? a - b : a * b);
		}
		if (op == "inp") {
			U& a = reg(c, "a");
			const U& b = reg(c, "b");
			if (c["f"] == "add") a += b; else if (c["f"] == "sub") a -= b; else a *= b;
			return ou(a);
		}
		if (op == "inpc") {
			U& a = reg(c, "a");
			C b = co(c["c"]);
			if (c["f"] == "add") a += b; else if (c["f"] == "sub") a -= b; else a *= b;
			return ou(a);
		}
		if constexpr (!isP) if (op == "binc") {
			const U& a = reg(c, "a");
			C b = co(c["c"]);
			const std::string& f = c["f"].s;
			if (c["side"] == "l") return store(c, f == "add" ? b + a : f == "sub" ? b - a : b * a);
			return store(c, f == "add" ? a + b : f == "sub" ? a - b : a * b);
		}
		if (op == "mulv") {
			Variable v = var(c["v"]);
			if (c["how"] == "in") { reg(c, "d") = reg(c, "a"); reg(c, "d") *= v; return ou(reg(c, "d")); }
			return store(c, c["how"] == "l" ? v * reg(c, "a") : reg(c, "a") * v);
		}
		if (op == "neg") return store(c, -reg(c, "a"));
		if (op == "copy") return store(c, reg(c, "a"));
		if (op == "move") { U t(std::move(reg(c, "a"))); reg(c, "a") = U(x); reg(c, "d") = std::move(t); return ou(reg(c, "d")); }
		if (op == "pow") return store(c, c["member"].b ? reg(c, "a").pow(std::size_t(c["n"].i)) : carl::pow(reg(c, "a"), std::size_t(c["n"].i)));
		if (op == "deriv") return store(c, carl::derivative(reg(c, "a"), std::size_t(c["n"].i)));
		if (op == "derivv") return store(c, carl::derivative(reg(c, "a"), var(c["v"]), std::size_t(c["n"].i)));
		if (op == "negvar") return store(c, reg(c, "a").negateVariable());
		if (op == "rev") return store(c, reg(c, "a").reverseCoefficients());
		if (op == "trunc") { need(!carl::isZero(reg(c, "a"))); reg(c, "a").truncate(); return ou(reg(c, "a")); }
		if (op == "normal") return store(c, reg(c, "a").normalized());
		if (op == "dump") { J o = J::arr(); for (auto& p : r) o.push(ou(p)); return o; }
		if (op == "eval") {
			C v = co(c["c"]);
			J o = J::obj();
			const U& a = reg(c, "a");
			o.set("v", oc(C(carl::evaluate(a, v)))).set("m", oc(C(a.evaluate(v))));
			if constexpr (!isP) o.set("root", carl::is_root_of(a, v)).set("sgn", int(a.sgn(v))).set("isroot", a.isRoot(v));
			return o;
		}
		if (op == "cmp") {
			const U &a = reg(c, "a"), &b = reg(c, "b");
			J o = J::obj();
			o.set("eq", a == b).set("ne", a != b).set("lt", a < b).set("gt", b < a).set("less", a.less(b)).set("greater", b.less(a));
			const U *pa = &a, *pb = &b, *pn = nullptr;
			std::less<U> ls;
			o.set("pless", ls(pa, pb)).set("nulls", J::arr({J(ls(pn, pn)), J(ls(pa, pn)), J(ls(pn, pa))}));
			o.set("stdless", ls(a, b)).set("hash", std::hash<U>()(a) == std::hash<U>()(b));
			return o;
		}
		if constexpr (!isP) if (op == "cmpc") {
			const U& a = reg(c, "a");
			C b = co(c["c"]);
			J o = J::obj();
			o.set("l", b == a).set("r", a == b);
			return o;
		}
		if (op == "view") {
			const U& a = reg(c, "a");
			J o = J::obj();
			o.set("zero", carl::isZero(a)).set("one", carl::isOne(a)).set("is_zero", carl::is_zero(a)).set("is_one", carl::is_one(a)).set("const", carl::is_constant(a));
			o.set("lin", a.isLinearInMainVar()).set("number", a.isNumber()).set("univ", a.isUnivariate()).set("cpart", out(a.constantPart()));
			J vs = J::arr();
			for (auto v : carl::variables(a)) vs.push(J(varIndex(v)));
			o.set("vars", vs).set("onepoly", ou(a.one())).set("back", outp(carl::MultivariatePolynomial<typename U::NumberType>(a)));
			J has = J::arr();
			for (auto v : vars()) has.push(a.has(v));
			o.set("has", has);
			if (!carl::isZero(a)) {
				o.set("deg", a.degree()).set("lc", oc(a.lcoeff())).set("tc", oc(a.tcoeff())).set("unit", oc(C(a.unitPart()))).set("normal", a.isNormal());
				o.set("zroot", a.zeroIsRoot()).set("tdeg", carl::total_degree(a));
			}
			if constexpr (!isZ) o.set("den", out(a.mainDenom())).set("cont", out(a.numericContent()));
			return o;
		}
		if (op == "coprime") {
			const U& a = reg(c, "a");
			need(!carl::isZero(a));
			J o = J::obj();
			if constexpr (!isZ) o.set("f", out(a.coprimeFactor())).set("p", ou(a.coprimeCoefficients())).set("s", ou(a.coprimeCoefficientsSignPreserving()));
			return o;
		}
		if constexpr (isZ) {
			if (op == "mod") { U& a = reg(c, "a"); a.mod(co(c["c"])); return ou(a); }
			if (op == "divc") { reg(c, "d") = reg(c, "a") / co(c["c"]); return ou(reg(c, "d")); }
			if (op == "prim") { J o = J::obj(); U n = reg(c, "a").normalized(); o.set("p", ou(carl::primitive_part(n))).set("c", oc(carl::content(n))); return o; }
			if (op == "divrem") {
				need(!carl::isZero(reg(c, "b")));
				auto d = carl::divide(reg(c, "a"), reg(c, "b"));
				J o = J::obj();
				o.set("q", ou(d.quotient)).set("r", ou(d.remainder));
				return o;
			}
			if (op == "remp") { // with a prefactor that makes it a pseudo remainder
				const U &a = reg(c, "a"), &b = reg(c, "b");
				need(!carl::isZero(b) && !carl::isZero(a) && a.degree() >= b.degree());
				return ou(carl::remainder(a, b, C(carl::pow(C(b.lcoeff()), a.degree() - b.degree() + 1))));
			}
		}
		if constexpr (isP) {
			if (op == "prem") {
				const U &a = reg(c, "a"), &b = reg(c, "b");
				need(!carl::isZero(a) && !carl::isZero(b));
				return store(c, carl::pseudo_remainder(a, b));
			}
			if (op == "divc") {
				const U& a = reg(c, "a");
				C d = co(c["c"]);
				C q;
				for (auto& x : a.coefficients()) need(carl::try_divide(x, d, q));
				return store(c, a / d);
			}
			if (op == "muln") { mpq_class n = num<mpq_class>(c["n"]); return store(c, reg(c, "a") * C(n)); }
			if (op == "tonum") { need(reg(c, "a").isUnivariate()); return outu(reg(c, "a").toNumberCoefficients()); }
		}
		if constexpr (isQ) {
			if (op == "divc") { if (c["in"].b) { reg(c, "d") = reg(c, "a"); reg(c, "d") /= co(c["c"]); return ou(reg(c, "d")); } return store(c, reg(c, "a") / co(c["c"])); }
			if (op == "divrem") {
				need(!carl::isZero(reg(c, "b")));
				auto d = carl::divide(reg(c, "a"), reg(c, "b"));
				J o = J::obj();
				o.set("q", ou(d.quotient)).set("r", ou(d.remainder)).set("rem", ou(carl::remainder(reg(c, "a"), reg(c, "b"))));
				return o;
			}
			if (op == "gcd") {
				need(!carl::isZero(reg(c, "a")) && !carl::isZero(reg(c, "b")));
				return store(c, carl::gcd(reg(c, "a"), reg(c, "b")));
			}
			if (op == "egcd") {
				need(!carl::isZero(reg(c, "a")) && !carl::isZero(reg(c, "b")));
				U s(x), t(x);
				U g = carl::extended_gcd(reg(c, "a"), reg(c, "b"), s, t);
				J o = J::obj();
				o.set("g", ou(g)).set("s", ou(s)).set("t", ou(t));
				return o;
			}
			if (op == "synth") { J o = J::obj(); U& a = reg(c, "a"); o.set("v", out(a.syntheticDivision(co(c["c"])))); o.set("p", ou(a)); return o; }
			if (op == "toint") {
				for (auto& x : reg(c, "a").coefficients()) need(carl::isInteger(x));
				return ou(reg(c, "a").toIntegerDomain());
			}
			if (op == "convert") {
				J o = J::obj();
				o.set("id", ou(reg(c, "a").template convert<mpq_class>()));
				mpq_class k = co(c["c"]);
				o.set("f", ou(reg(c, "a").template convert<mpq_class>([&k](const mpq_class& q) -> mpq_class { return q * k; })));
				return o;
			}
		}
		throw std::logic_error("driver: bad op " + op);
	}
};
static std::unique_ptr<Machine> machine;
static void begin(const J& h) {
	make_vars(h);
	std::size_t n = std::size_t(h["k"].i);
	Variable v = var(h["x"]);
	if (h["ring"] == "Q") machine = std::make_unique<M<mpq_class>>(n, v);
	else if (h["ring"] == "Z") machine = std::make_unique<M<mpz_class>>(n, v);
	else machine = std::make_unique<M<MPQ>>(n, v);
}
static J cmd(const J& c) { return machine->cmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
