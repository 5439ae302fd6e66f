// libs: carl carl-logging
// Finite-field numbers (C18).
#include "polyio.h"
#include <carl/numbers/GFNumber.h>

using Z = mpz_class;
using G = carl::GFNumber<Z>;
static std::vector<const carl::GaloisField<Z>*> fields;
static std::vector<G> R;
static J o(const Z& z) { return J(z.get_str()); }
static J rep(const G& g) {
	J r = J::obj();
	long f = 0;
	for (std::size_t i = 1; i < fields.size(); ++i) if (g.gf() != nullptr && *g.gf() == *fields[i]) { f = long(i); break; }
	if (g.gf() != nullptr && f == 0) f = -1;
	r.set("n", o(g.representingInteger())); r.set("f", J(f));
	return r;
}
static bool mix(const G& a, const G& b) { return a.gf() == nullptr || b.gf() == nullptr || a.gf() == b.gf(); }
static bool unit(const G& a) { return a.gf() != nullptr && !carl::isZero(carl::mod(a.representingInteger(), Z(a.gf()->p()))); }
static void begin(const J& h) {
	fields.clear(); fields.push_back(nullptr);
	for (const auto& f : h["fields"]) fields.push_back(carl::GaloisFieldManager<Z>::getInstance().getField(unsigned(f[0].i), unsigned(f[1].i)));
	R.assign(std::size_t(h["k"].i) + 1, G());
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	auto r = [&](const char* k) -> G& { return R.at(std::size_t(c[k].i)); };
	auto n = [&]() { return Z(c["n"].s); };
	const std::string g = c.has("g") ? c["g"].s : "";
	if (op == "new") {
		const auto* f = fields.at(std::size_t(c["f"].i));
		G x = c["how"] == "ctor" ? G(n(), f) : c["how"] == "from" ? G(G(n()), f) : G(n()).toGF(f);
		r("d") = x; return rep(r("d"));
	}
	if (op == "un") {
		const G& a = r("a"); J j = rep(a);
		std::stringstream ss; ss << a;
		j.set("zero", J(a.isZero())); j.set("fzero", J(carl::isZero(a))); j.set("one", J(a.isOne())); j.set("unit", J(a.isUnit())); j.set("fone", J(carl::isOne(a)));
		j.set("str", J(ss.str() == carl::toString(a, true) ? ss.str() : "differs"));
		return j;
	}
	if (op == "mod") {
		const auto* f = fields.at(std::size_t(c["f"].i));
		J j = J::obj(); j.set("n", o(c["how"] == "sym" ? f->symmetricModulo(n()) : f->modulo(n()))); j.set("size", o(f->size()));
		j.set("same", J(carl::GaloisFieldManager<Z>::getInstance().getField(f->p(), f->k()) == f));
		return j;
	}
	if (op == "eq") { const G& a = r("a"); const G& b = r("b"); need(a.gf() == b.gf()); J j = J::obj(); j.set("eq", J(a == b)); j.set("ne", J(a != b)); return j; }
	if (op == "eqz") {
		const G& a = r("a"); J j = J::obj();
		if (c["how"] == "Z") {
			need(a.gf() != nullptr);
			Z z = n();
			j.set("eq", J(a == z)); j.set("ne", J(a != z)); j.set("req", J(z == a)); j.set("rne", J(z != a));
		} else {
			int i = int(n().get_si());
			j.set("eq", J(a == i)); j.set("ne", J(a != i)); j.set("req", J(i == a)); j.set("rne", J(i != a));
		}
		return j;
	}
	if (op == "bin") {
		const G& a = r("a"); const G& b = r("b"); need(mix(a, b));
		G x = g == "add" ? a + b : g == "sub" ? a - b : a * b;
		r("d") = x; return rep(r("d"));
	}
	if (op == "inp") {
		G& a = r("a"); const G& b = r("b"); need(mix(a, b));
		if (g == "add") a += b; else if (g == "sub") a -= b; else a *= b;
		return rep(a);
	}
	if (op == "binz") { const G& a = r("a"); Z z = n(); G x = g == "add" ? a + z : g == "sub" ? a - z : a * z; r("d") = x; return rep(r("d")); }
	if (op == "zbin") { const G& a = r("a"); Z z = n(); G x = g == "add" ? z + a : g == "sub" ? z - a : z * a; r("d") = x; return rep(r("d")); }
	if (op == "inpz") { G& a = r("a"); Z z = n(); if (g == "add") a += z; else if (g == "sub") a -= z; else a *= z; return rep(a); }
	if (op == "inc") { ++r("a"); return rep(r("a")); }
	if (op == "dec") { --r("a"); return rep(r("a")); }
	if (op == "norm") { r("a").normalize(); return rep(r("a")); }
	if (op == "copy") { G x = r("a"); r("d") = x; return rep(r("d")); }
	if (op == "neg") { G x = -r("a"); r("d") = x; return rep(r("d")); }
	if (op == "inv") { need(unit(r("a"))); G x = r("a").inverse(); r("d") = x; return rep(r("d")); }
	if (op == "div") { need(unit(r("b")) && mix(r("a"), r("b"))); G x = c["how"] == "quo" ? carl::quotient(r("a"), r("b")) : r("a") / r("b"); r("d") = x; return rep(r("d")); }
	if (op == "divin") { need(unit(r("b")) && mix(r("a"), r("b"))); r("a") /= r("b"); return rep(r("a")); }
	if (op == "togf") {
		J from = rep(r("a"));
		const auto* f = fields.at(std::size_t(c["f"].i));
		G x = c["how"] == "from" ? G(r("a"), f) : r("a").toGF(f);
		r("d") = x;
		J j = rep(r("d")); j.set("from", from); return j;
	}
	throw std::logic_error("driver: bad op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
