// libs: carl carl-logging
// Relations and signs (C30).
#include "polyio.h"
#include <carl/core/Relation.h>
#include <carl/core/Sign.h>
#include <list>

using Q = mpq_class;
using carl::Relation;
using carl::Sign;
static Relation rel(const J& j) {
	return j == "=" ? Relation::EQ : j == "!=" ? Relation::NEQ : j == "<" ? Relation::LESS : j == "<=" ? Relation::LEQ : j == ">" ? Relation::GREATER : Relation::GEQ;
}
static const char* name(Relation r) {
	switch (r) { case Relation::EQ: return "="; case Relation::NEQ: return "!="; case Relation::LESS: return "<"; case Relation::LEQ: return "<="; case Relation::GREATER: return ">"; case Relation::GEQ: return ">="; }
	return "?";
}
template<typename N> static J num(const N& n, Relation r) { J o = J::obj(); o.set("sgn", J(long(carl::sgn(n)))); o.set("holds", J(carl::evaluate(n, r))); return o; }
template<typename N, typename M> static J cmp(const N& a, const M& b, Relation r) {
	J o = J::obj();
	o.set("holds", J(carl::evaluate(a, r, b))); o.set("swapped", J(carl::evaluate(b, carl::turn_around(r), a))); o.set("neg", J(carl::evaluate(a, carl::inverse(r), b)));
	return o;
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J o = J::obj();
	Relation r = c.has("rel") ? rel(c["rel"]) : Relation::EQ;
	if (op == "rel") {
		o.set("inv", J(name(carl::inverse(r)))); o.set("turn", J(name(carl::turn_around(r)))); o.set("strict", J(carl::isStrict(r))); o.set("weak", J(carl::isWeak(r)));
		std::stringstream s; s << r;
		o.set("str", J(s.str())); o.set("str2", J(carl::toString(r)));
		return o;
	}
	if (op == "pair") { Relation t = rel(c["rel2"]); o.set("eq", J(r == t)); o.set("heq", J(std::hash<Relation>()(r) == std::hash<Relation>()(t))); return o; }
	if (op == "sign") { Sign s = Sign(c["s"].i); o.set("holds", J(carl::evaluate(s, r))); std::stringstream t; t << s; o.set("name", J(t.str())); return o; }
	if (op == "num") {
		Q q = pio::num<Q>(c["c"]);
		const std::string& t = c["ty"].s;
		if (t == "z") return num(mpz_class(q.get_num()), r);
		if (t == "i") return num(int(q.get_num().get_si()), r);
		if (t == "d") return num(q.get_d(), r);
		return num(q, r);
	}
	if (op == "cmp") {
		Q a = pio::num<Q>(c["a"]), b = pio::num<Q>(c["b"]);
		const std::string& t = c["ty"].s;
		if (t == "i") return cmp(int(a.get_num().get_si()), int(b.get_num().get_si()), r);
		if (t == "d") return cmp(a.get_d(), b.get_d(), r);
		if (t == "id") return cmp(int(a.get_num().get_si()), b.get_d(), r);
		if (t == "ld") return cmp(long(a.get_num().get_si()), float(b.get_d()), r);
		return cmp(a, b, r);
	}
	if (op == "var") {
		std::vector<Sign> v; for (const J& x : c["l"]) v.push_back(Sign(x.i));
		std::list<long> l; for (const J& x : c["l"]) l.push_back(x.i * 3);
		o.set("v", J(long(carl::sign_variations(v.begin(), v.end()))));
		o.set("f", J(long(carl::sign_variations(l.begin(), l.end(), [](long n) { return carl::sgn(int(n)); }))));
		return o;
	}
	throw std::runtime_error("unknown op " + op);
}
static void begin(const J&) {}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
