// libs: carl carl-logging
// Rational functions: registers of quotients (C34).
#include "polyio.h"
#include <carl-extpolys/RationalFunction.h>

using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;

template<typename R> struct Machine {
	static std::vector<R>& reg() { static std::vector<R> r; return r; }
	static R& at(const J& i) { return reg().at(std::size_t(i.i) - 1); }
	static J show(const R& x) {
		J o = J::obj();
		o.set("n", pio::outp(x.nominator())); o.set("d", pio::outp(x.denominator())); o.set("const", J(x.isConstant())); o.set("simp", J(x.isSimplified()));
		return o;
	}
	static bool zero(const R& x) { return x.nominator().isZero(); }
	template<typename T> static R apply(const std::string& f, bool inplace, R& a, const T& b) {
		if (inplace) {
			if (f == "add") a += b; else if (f == "sub") a -= b; else if (f == "mul") a *= b; else a /= b;
			return a;
		}
		if (f == "add") return a + b;
		if (f == "sub") return a - b;
		if (f == "mul") return a * b;
		return a / b;
	}
	static R make(const J& c) {
		const std::string& how = c["how"].s;
		P p = pio::poly<P>(c["p"]), q = pio::poly<P>(c["q"]);
		if (how == "def") return R();
		if (how == "int") return R(int(std::stol(c["c"].s)));
		if (how == "num") return R(Q(pio::rat(c["c"])));
		if (how == "var") return R(pio::var(c["v"]));
		if (how == "poly") return R(p);
		if (how == "polymv") return R(std::move(p));
		need(!q.isZero());
		if (how == "quot") return R(p, q);
		if (how == "quotmv") return R(std::move(p), std::move(q));
		throw std::logic_error("driver: how");
	}
	static J cmd(const J& c) {
		const std::string& op = c["op"].s;
		J o = J::obj();
		if (op == "new") { R x = make(c); at(c["d"]) = x; return show(at(c["d"])); }
		if (op == "bin") {
			R& a = at(c["a"]);
			const std::string &f = c["f"].s, &k = c["k"].s;
			bool ip = c["ip"].b;
			R x;
			if (k == "rf") { need(f != "div" || !zero(at(c["b"]))); x = apply(f, ip, a, at(c["b"])); }
			else {
				P p = pio::poly<P>(c["p"]);
				need(f != "div" || !p.isZero());
				if (k == "poly") x = apply(f, ip, a, p);
				else if (k == "term") x = apply(f, ip, a, p.lterm());
				else if (k == "mono") x = apply(f, ip, a, p.lterm().monomial());
				else if (k == "var") x = apply(f, ip, a, pio::var(c["v"]));
				else if (k == "num") x = apply(f, ip, a, Q(p.constantPart()));
				else if (k == "lnum") x = Q(p.constantPart()) * a;
				else if (k == "sint") { carl::sint n = std::stol(c["c"].s); if (c["left"].b) x = n * a; else x = ip ? (a *= n) : a * n; }
				else if (k == "uint") { unsigned long n = std::stoul(c["c"].s); need(n != 0); x = ip ? (a /= n) : a / n; }
				else throw std::logic_error("driver: operand");
			}
			if (!ip) at(c["d"]) = x;
			o.set("x", show(x)); o.set("a", show(a));
			return o;
		}
		if (op == "neg") { at(c["d"]) = -at(c["a"]); return show(at(c["d"])); }
		if (op == "inv") { need(!zero(at(c["a"]))); at(c["d"]) = at(c["a"]).inverse(); return show(at(c["d"])); }
		if (op == "pow") { at(c["d"]) = carl::pow(at(c["a"]), unsigned(c["n"].i)); return show(at(c["d"])); }
		if (op == "simp") { at(c["a"]).simplify(); return show(at(c["a"])); }
		if (op == "copy") { if (c["mv"].b) { R t = at(c["a"]); at(c["d"]) = std::move(t); } else at(c["d"]) = at(c["a"]); return show(at(c["d"])); }
		if (op == "subst" || op == "eval") {
			std::map<carl::Variable, Q> m;
			for (const J& x : c["m"]) m[pio::var(x[0])] = pio::rat(x[1]);
			const R& a = at(c["a"]);
			need(!carl::substitute(a.denominator(), m).isZero());
			if (op == "eval") { o.set("v", pio::out(a.evaluate(m))); return o; }
			at(c["d"]) = a.substitute(m);
			return show(at(c["d"]));
		}
		if (op == "view") {
			const R& a = at(c["a"]);
			o.set("x", show(a)); o.set("zero", J(a.isZero())); o.set("one", J(a.isOne()));
			return o;
		}
		if (op == "cmp") {
			const R &a = at(c["a"]), &b = at(c["b"]);
			o.set("eq", J(a == b)); o.set("ne", J(a != b)); o.set("lt", J(a < b)); o.set("gt", J(b < a));
			o.set("hash", J(std::hash<R>()(a) == std::hash<R>()(b)));
			return o;
		}
		throw std::logic_error("driver: unknown op " + op);
	}
};
using R0 = Machine<carl::RationalFunction<P, false>>;
using R1 = Machine<carl::RationalFunction<P, true>>;
static bool as;
static void begin(const J& h) { pio::make_vars(h); as = h["as"].b; R0::reg().resize(std::size_t(h["k"].i)); R1::reg().resize(std::size_t(h["k"].i)); }
static J cmd(const J& c) { return as ? R1::cmd(c) : R0::cmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
