// libs: carl carl-logging
// Monomials and terms (C01, C02).
#include "polyio.h"
#include <carl/core/MonomialOrdering.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.h>
#include <random>

using namespace pio;
using Arg = Monomial::Arg;
using T = Term<mpq_class>;
static std::vector<Arg> r;
static std::vector<Arg> junk;

static Arg& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }

static J result(const Arg& m) {
	J o = J::obj(), eq = J::arr(), same = J::arr(), hash = J::arr();
	for (std::size_t i = 0; i < r.size(); ++i) {
		if (r[i] == m) eq.push(J(long(i) + 1));
		if (r[i].get() == m.get()) same.push(J(long(i) + 1));
		if (std::hash<Arg>()(r[i]) == std::hash<Arg>()(m)) hash.push(J(long(i) + 1));
	}
	o.set("m", out(m)).set("deg", m ? long(m->tdeg()) : 0L).set("eq", eq).set("same", same).set("hash", hash);
	return o;
}
template<typename A, typename B> J rel(const A& a, const B& b) {
	J o = J::obj();
	o.set("eq", a == b).set("ne", a != b).set("lt", a < b).set("le", a <= b).set("gt", a > b).set("ge", a >= b);
	return o;
}
static std::string c3(carl::CompareResult c) {
	return c == carl::CompareResult::LESS ? "L" : c == carl::CompareResult::EQUAL ? "E" : "G";
}
static J cmp(const Arg& a, const Arg& b) {
	J o = J::obj();
	using G = carl::GrLexOrdering;
	using L = carl::LexOrdering;
	T s(mpq_class(3), a), t(mpq_class(-2), b);
	o.set("rel", rel(a, b)).set("gr", c3(G::compare(a, b))).set("lex", c3(L::compare(a, b)));
	o.set("grless", G::less(a, b)).set("greq", G::equal(a, b)).set("lexless", L()(a, b)).set("lexeq", L::equal(a, b));
	o.set("stdless", std::less<Arg>()(a, b));
	o.set("tgr", c3(G::compare(s, t))).set("tgrless", G()(s, t)).set("tlexless", L::less(s, t)).set("tgreq", G::equal(s, t));
	o.set("moneq", T::monomialEqual(s, t)).set("monless", T::monomialLess(s, t));
	return o;
}
static J cmpv(const Arg& a, Variable v) {
	J o = J::obj();
	o.set("rel", rel(a, v)).set("rev", rel(v, a)).set("gr", c3(Monomial::compareGradedLexical(a, v))).set("lex", c3(Monomial::compareLexical(a, v)));
	return o;
}
static J termcmd(const J& c) {
	const std::string& op = c["op"].s;
	T x = term<mpq_class>(c["x"]);
	J o = J::obj();
	Variable v = var(c["v"]);
	if (op == "tview") {
		o.set("deg", long(x.tdeg())).set("const", x.isConstant()).set("one", carl::isOne(x)).set("zero", carl::isZero(x));
		o.set("linear", x.isConstant() || x.isLinear()).set("nr", x.getNrVariables()).set("single", x.isSingleVariable());
		o.set("square", x.isSquare()).set("int", x.integerValued());
		J has = J::arr(), only = J::arr();
		for (auto w : vars()) { has.push(x.has(w)); only.push(x.hasNoOtherVariable(w)); }
		o.set("has", has).set("only", only);
		o.set("pow", out(carl::pow(x, std::size_t(c["n"].i))));
		T s;
		bool ok = x.sqrt(s);
		o.set("sqrtok", ok);
		if (ok) o.set("sqrt", out(s));
		o.set("dropv", out(x.dropVariable(v)));
		return o;
	}
	T y = term<mpq_class>(c["y"]);
	if (op == "tmul") {
		o.set("mul", out(T(x * y)));
		T z = x;
		z *= y;
		o.set("mulin", out(z)).set("mulc", out(T(x * y.coeff()))).set("mulm", out(T(x * y.monomial()))).set("mulv", out(T(x * v))).set("neg", out(-x));
		return o;
	}
	if (op == "tdiv") {
		T q;
		bool ok = x.divide(y, q);
		o.set("ok", ok);
		if (ok) o.set("q", out(q));
		ok = x.divide(y.monomial(), q);
		o.set("mok", ok);
		if (ok) o.set("mq", out(q));
		ok = x.divide(v, q);
		o.set("vok", ok);
		if (ok) o.set("vq", out(q));
		o.set("divisible", x.divisible(y)).set("cq", out(x.divide(y.coeff())));
		return o;
	}
	if (op == "tcmp") {
		o.set("rel", rel(x, y)).set("m", rel(x, y.monomial())).set("mr", rel(y.monomial(), x));
		o.set("v", rel(x, v)).set("vr", rel(v, x)).set("c", rel(x, y.coeff())).set("cr", rel(y.coeff(), x));
		o.set("hash", std::hash<T>()(x) == std::hash<T>()(y));
		return o;
	}
	throw std::logic_error("driver: bad op " + op);
}

static void begin(const J& h) {
	make_vars(h);
	r.resize(std::size_t(h["k"].i));
}
static J store(Arg& d, Arg m) { J o = result(m); d = std::move(m); return o; }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "mk") {
		const std::string& how = c["how"].s;
		Monomial::Content ct;
		std::size_t deg = 0;
		for (std::size_t i = 0; i < c["m"].size(); ++i)
			if (c["m"][i].i) { ct.emplace_back(vars()[i], std::size_t(c["m"][i].i)); deg += std::size_t(c["m"][i].i); }
		Arg m;
		if (ct.empty()) m = nullptr;
		else if (how == "list") m = carl::createMonomial(std::move(ct));
		else if (how == "deg") m = carl::createMonomial(std::move(ct), deg);
		else if (how == "init") {
			// An initializer list in arbitrary order.
			auto n = ct.size();
			auto& pool = carl::MonomialPool::getInstance();
			if (n == 1) m = pool.create({ct[0]});
			else if (n == 2) m = pool.create({ct[1], ct[0]});
			else if (n == 3) m = pool.create({ct[1], ct[2], ct[0]});
			else m = carl::createMonomial(std::move(ct));
		} else { // products of variables
			for (auto it = ct.rbegin(); it != ct.rend(); ++it) m = m * carl::pow(it->first, it->second);
		}
		return store(reg(c, "d"), m);
	}
	if (op == "mul") return store(reg(c, "d"), reg(c, "a") * reg(c, "b"));
	if (op == "mulv") return store(reg(c, "d"), reg(c, "a") * var(c["v"]));
	if (op == "vmul") return store(reg(c, "d"), var(c["v"]) * reg(c, "a"));
	if (op == "vv") return store(reg(c, "d"), var(c["v"]) * var(c["w"]));
	if (op == "gcd") return store(reg(c, "d"), carl::gcd(reg(c, "a"), reg(c, "b")));
	if (op == "lcm") return store(reg(c, "d"), Monomial::lcm(reg(c, "a"), reg(c, "b")));
	if (op == "lcmdiv") return store(reg(c, "d"), Monomial::calcLcmAndDivideBy(reg(c, "a"), reg(c, "b")));
	if (op == "pow") return store(reg(c, "d"), carl::pow(reg(c, "a"), std::size_t(c["n"].i)));
	if (op == "powv") return store(reg(c, "d"), carl::pow(var(c["v"]), std::size_t(c["n"].i)));
	if (op == "dropv") return store(reg(c, "d"), reg(c, "a")->dropVariable(var(c["v"])));
	if (op == "sep") return store(reg(c, "d"), carl::separable_part(*reg(c, "a")));
	if (op == "copy") return store(reg(c, "d"), reg(c, "a"));
	if (op == "release") return store(reg(c, "a"), nullptr);
	if (op == "div" || op == "divv" || op == "sqrt") {
		Arg q;
		bool ok;
		if (op == "div") ok = reg(c, "a")->divide(reg(c, "b"), q);
		else if (op == "divv") ok = reg(c, "a")->divide(var(c["v"]), q);
		else { q = reg(c, "a")->sqrt(); ok = q != nullptr; }
		J o = J::obj();
		o.set("ok", ok);
		if (ok) o.set("res", store(reg(c, "d"), q));
		return o;
	}
	if (op == "divisible") return J(reg(c, "a")->divisible(reg(c, "b")));
	if (op == "view") {
		const Monomial& m = *reg(c, "a");
		J o = J::obj(), has = J::arr(), ex = J::arr(), only = J::arr(), vs = J::arr();
		for (auto w : vars()) { has.push(m.has(w)); ex.push(long(m.exponentOfVariable(w))); only.push(m.hasNoOtherVariable(w)); }
		for (const auto& p : m) vs.push(J(varIndex(p.first)));
		o.set("m", out(reg(c, "a"))).set("deg", long(m.tdeg())).set("nr", m.nrVariables()).set("linear", m.isLinear()).set("atmost", m.isAtMostLinear());
		o.set("square", m.isSquare()).set("int", m.integerValued()).set("has", has).set("exp", ex).set("only", only).set("vars", vs);
		return o;
	}
	if (op == "dump") { J o = J::arr(); for (auto& m : r) o.push(out(m)); return o; }
	if (op == "churn") {
		// Many monomials come and go; equal ones must be found again.
		std::mt19937 g(unsigned(c["s"].i));
		bool ok = true;
		for (long i = 0; i < c["n"].i; ++i) {
			Monomial::Content ct, ct2;
			for (auto v : vars()) { std::size_t e = g() % 12; if (e) ct.emplace_back(v, e); }
			if (ct.empty()) continue;
			ct2 = ct;
			Arg m = carl::createMonomial(std::move(ct)), m2 = carl::createMonomial(std::move(ct2));
			if (m.get() != m2.get() || m->id() != m2->id()) ok = false;
			for (auto& x : r) if (x && x->id() == m->id() && x.get() != m.get()) ok = false;
			if (g() % 3) junk.push_back(m);
			if (!junk.empty() && g() % 4 == 0) junk.erase(junk.begin() + long(g() % junk.size()));
		}
		if (c["free"].b) junk.clear();
		return J(ok);
	}
	if (op == "cmp") return cmp(reg(c, "a"), reg(c, "b"));
	if (op == "cmpv") return cmpv(reg(c, "a"), var(c["v"]));
	if (op == "ecmp") return cmp(mono(c["x"][0]), mono(c["y"][0]));
	if (op == "ecmpv") return cmpv(mono(c["x"][0]), var(c["v"]));
	return termcmd(c);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
