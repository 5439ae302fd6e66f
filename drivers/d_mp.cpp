// libs: carl carl-logging
// Register machine over multivariate polynomials (C03, C04).
#include "polyio.h"
#include <carl/core/polynomialfunctions/Power.h>
#include <memory>
#include <unordered_set>

using namespace pio;

struct Machine {
	virtual ~Machine() = default;
	virtual J cmd(const J& c) = 0;
};

template<typename C>
struct M : Machine {
	using P = carl::MultivariatePolynomial<C>;
	using T = carl::Term<C>;
	std::vector<P> r;
	explicit M(std::size_t n) : r(n) {}
	P& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }

	template<typename A, typename B> P apply(const std::string& f, const A& a, const B& b) {
		if (f == "add") return P(a + b);
		if (f == "sub") return P(a - b);
		if (f == "mul") return P(a * b);
		throw std::logic_error("driver: bad f " + f);
	}
	template<typename A, typename B> P applyAS(const std::string& f, const A& a, const B& b) {
		if (f == "add") return P(a + b);
		if (f == "sub") return P(a - b);
		throw std::logic_error("driver: bad f " + f);
	}
	template<typename B> void inplace(const std::string& f, P& a, const B& b) {
		if (f == "add") a += b;
		else if (f == "sub") a -= b;
		else if (f == "mul") a *= b;
		else throw std::logic_error("driver: bad f " + f);
	}
	template<typename X> J rel(const P& a, const X& x) {
		J o = J::obj();
		o.set("eq", a == x).set("ne", a != x).set("lt", a < x).set("le", a <= x).set("gt", a > x).set("ge", a >= x);
		return o;
	}
	template<typename X> J relx(const X& x, const P& a) {
		J o = J::obj();
		o.set("eq", x == a).set("ne", x != a).set("lt", x < a).set("le", x <= a).set("gt", x > a).set("ge", x >= a);
		return o;
	}
	P lit(const J& c) {
		const std::string& how = c["how"].s;
		std::vector<T> ts;
		for (const auto& t : c["p"]) ts.push_back(term<C>(t));
		if (how == "vec") return P(std::move(ts));
		if (how == "cvec") return P(ts);
		P p;
		if (how == "acc") { for (auto& t : ts) p += t; return p; }
		if (how == "accsub") { for (auto& t : ts) p -= T(-t.coeff(), t.monomial()); return p; }
		if (how == "accmono") {
			for (auto& t : ts) { P q; q += t.monomial(); q *= t.coeff(); p += q; }
			return p;
		}
		if (how == "ops") {
			// As a user would write it: products of variables and numbers.
			for (auto& t : ts) {
				P q(t.coeff());
				if (t.monomial()) for (auto& ve : *t.monomial()) for (std::size_t i = 0; i < ve.second; ++i) q *= ve.first;
				p = p + q;
			}
			return p;
		}
		if (how == "sum") {
			std::vector<P> ps;
			for (auto& t : ts) ps.emplace_back(t);
			if (ps.empty()) return P();
			return P(P::ConstructorOperation::ADD, ps);
		}
		if (how == "single") return P(ts.at(0));
		throw std::logic_error("driver: bad how " + how);
	}
	J cmd(const J& c) override {
		const std::string& op = c["op"].s;
		if (op == "lit") { reg(c, "d") = lit(c); return outp(reg(c, "d")); }
		if (op == "bin") {
			reg(c, "d") = apply(c["f"].s, reg(c, "a"), reg(c, "b"));
			return outp(reg(c, "d"));
		}
		if (op == "inp") {
			inplace(c["f"].s, reg(c, "a"), reg(c, "b"));
			return outp(reg(c, "a"));
		}
		if (op == "inpx") { // in place with a term, monomial, variable or number
			P& a = reg(c, "a");
			const std::string& k = c["k"].s;
			if (k == "term") inplace(c["f"].s, a, term<C>(c["x"]));
			else if (k == "mono") inplace(c["f"].s, a, mono(c["x"][0]));
			else if (k == "var") inplace(c["f"].s, a, var(c["v"]));
			else inplace(c["f"].s, a, num<C>(c["x"][1]));
			return outp(a);
		}
		if (op == "binx") {
			P& d = reg(c, "d");
			const P& a = reg(c, "a");
			const std::string &k = c["k"].s, &f = c["f"].s;
			bool left = c["side"] == "l"; // the other operand is on the left
			if (k == "term") { auto x = term<C>(c["x"]); d = left ? apply(f, x, a) : apply(f, a, x); }
			else if (k == "mono") { auto x = mono(c["x"][0]); d = left ? apply(f, x, a) : apply(f, a, x); }
			else if (k == "var") { auto x = var(c["v"]); d = left ? apply(f, x, a) : apply(f, a, x); }
			else { auto x = num<C>(c["x"][1]); d = left ? apply(f, x, a) : apply(f, a, x); }
			return outp(d);
		}
		if (op == "xy") { // sums and differences of things that are not polynomials yet
			P& d = reg(c, "d");
			const std::string &k = c["k"].s, &f = c["f"].s;
			auto t1 = term<C>(c["x"]), t2 = term<C>(c["y"]);
			auto m1 = t1.monomial(), m2 = t2.monomial();
			C c1 = t1.coeff(), c2 = t2.coeff();
			if (k == "tt") d = applyAS(f, t1, t2);
			else if (k == "tm") d = applyAS(f, t1, m2);
			else if (k == "tv") d = applyAS(f, t1, var(c["v"]));
			else if (k == "tc") d = applyAS(f, t1, c2);
			else if (k == "mt") d = applyAS(f, m1, t2);
			else if (k == "mc") d = applyAS(f, m1, c2);
			else if (k == "vt") d = applyAS(f, var(c["v"]), t2);
			else if (k == "vc") d = applyAS(f, var(c["v"]), c2);
			else if (k == "ct") d = applyAS(f, c1, t2);
			else if (k == "cm") d = applyAS(f, c1, m2);
			else if (k == "cv") d = applyAS(f, c1, var(c["v"]));
			else throw std::logic_error("driver: bad k");
			return outp(d);
		}
		if (op == "neg") { reg(c, "d") = -reg(c, "a"); return outp(reg(c, "d")); }
		if (op == "copy") { reg(c, "d") = reg(c, "a"); return outp(reg(c, "d")); }
		if (op == "move") { // the source is given a new value afterwards
			P t(std::move(reg(c, "a")));
			reg(c, "a") = P();
			reg(c, "d") = std::move(t);
			return outp(reg(c, "d"));
		}
		if (op == "pow") { reg(c, "d") = carl::pow(reg(c, "a"), std::size_t(c["n"].i)); return outp(reg(c, "d")); }
		if (op == "pownaive") { reg(c, "d") = carl::pow_naive(reg(c, "a"), std::size_t(c["n"].i)); return outp(reg(c, "d")); }
		if (op == "divc") { reg(c, "a") /= num<C>(c["c"]); return outp(reg(c, "a")); }
		if (op == "divcx") { reg(c, "d") = reg(c, "a") / num<C>(c["c"]); return outp(reg(c, "d")); }
		if (op == "subprod") { reg(c, "a").subtractProduct(term<C>(c["x"]), reg(c, "b")); return outp(reg(c, "a")); }
		if (op == "addterm") { reg(c, "a").addTerm(term<C>(c["x"])); return outp(reg(c, "a")); }
		if (op == "strip") { reg(c, "a").stripLT(); return outp(reg(c, "a")); }
		if (op == "tail") { reg(c, "d") = reg(c, "a").tail(c["full"].b); return outp(reg(c, "d")); }
		if (op == "order") { reg(c, "a").makeOrdered(); return outp(reg(c, "a")); }
		if (op == "unorder") { reg(c, "a").reset_ordered(); return outp(reg(c, "a")); }
		if (op == "nary") {
			std::vector<P> ps;
			for (auto& i : c["as"]) ps.push_back(r.at(std::size_t(i.i) - 1));
			auto o = c["f"] == "add" ? P::ConstructorOperation::ADD : c["f"] == "sub" ? P::ConstructorOperation::SUB : P::ConstructorOperation::MUL;
			reg(c, "d") = P(o, ps);
			return outp(reg(c, "d"));
		}
		if (op == "dump") {
			J o = J::arr();
			for (auto& p : r) o.push(outp(p));
			return o;
		}
		if (op == "cmp") {
			const P &a = reg(c, "a"), &b = reg(c, "b");
			J o = rel(a, b);
			o.set("hash", std::hash<P>()(a) == std::hash<P>()(b));
			o.set("eqto", std::equal_to<P>()(a, b));
			return o;
		}
		if (op == "cmpx") {
			const P& a = reg(c, "a");
			const std::string& k = c["k"].s;
			bool left = c["side"] == "l";
			if (k == "term") { auto x = term<C>(c["x"]); return left ? relx(x, a) : rel(a, x); }
			if (k == "mono") { auto x = mono(c["x"][0]); return left ? relx(x, a) : rel(a, x); }
			if (k == "var") { auto x = var(c["v"]); return left ? relx(x, a) : rel(a, x); }
			auto x = num<C>(c["x"][1]);
			return left ? relx(x, a) : rel(a, x);
		}
		if (op == "view") {
			const P& a = reg(c, "a");
			J o = J::obj();
			o.set("nr", a.nrTerms()).set("size", a.size()).set("zero", carl::isZero(a)).set("one", carl::isOne(a));
			o.set("const", a.isConstant()).set("number", a.isNumber()).set("var", a.isVariable()).set("linear", a.isLinear());
			o.set("tdeg", a.totalDegree()).set("cpart", out(C(a.constantPart()))).set("univ", a.isUnivariate());
			o.set("intval", a.integerValued()).set("hasct", a.hasConstantTerm());
			J deg = J::arr(), has = J::arr();
			for (auto v : vars()) { deg.push(J(a.degree(v))); has.push(J(a.has(v))); }
			o.set("deg", deg).set("has", has);
			J vs = J::arr();
			for (auto v : carl::variables(a)) vs.push(J(varIndex(v)));
			o.set("vars", vs);
			if (!carl::isZero(a)) {
				o.set("lt", out(a.lterm())).set("lc", out(C(a.lcoeff()))).set("lm", out(a.lmon())).set("tt", out(a.trailingTerm()));
			}
			P b(a);
			b.makeOrdered();
			o.set("ordered", outp(b));
			return o;
		}
		if (op == "coeffv") {
			reg(c, "d") = reg(c, "a").coeff(var(c["v"]), std::size_t(c["e"].i));
			return outp(reg(c, "d"));
		}
		if (op == "lcoeffv") {
			reg(c, "d") = reg(c, "a").lcoeff(var(c["v"]));
			return outp(reg(c, "d"));
		}
		throw std::logic_error("driver: bad op " + op);
	}
};

static std::unique_ptr<Machine> machine;
static void begin(const J& h) {
	make_vars(h);
	std::size_t n = std::size_t(h["k"].i);
	if (h["ring"] == "Q") machine = std::make_unique<M<mpq_class>>(n);
	else machine = std::make_unique<M<mpz_class>>(n);
}
static J cmd(const J& c) { return machine->cmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
