// libs: carl carl-logging
// link: -lbliss
// shim
// Symmetries of formulas and their breaking (C37).
#include "formio.h"
// The library is written for bliss 0.73, whose graphs take a function and its argument; later ones take a callable.
#define BLISS_USE_GMP
#include <bliss/digraph.hh>
#include <bliss/stats.hh>
namespace bliss {
struct Digraph73: public Digraph {
	void find_automorphisms(Stats& s, void (*f)(void*, unsigned, const unsigned*), void* p) {
		Digraph::find_automorphisms(s, [f, p](unsigned n, const unsigned* a) { f(p, n, a); });
	}
};
}
#define Digraph Digraph73
#include <carl/formula/symmetry/symmetry.h>

using namespace fio;
// All variables by number: arithmetic, Boolean, bit vector, uninterpreted.
static std::vector<carl::Variable> all;
static J pairs(const carl::formula::Symmetry& s) {
	J l = J::arr();
	for (const auto& p : s) l.push(J::arr({J(indexOf(all, p.first)), J(indexOf(all, p.second))}));
	return l;
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	bool first = c["first"].b;
	carl::formula::Symmetries s;
	J r = J::obj(), l = J::arr();
	if (op == "sym") {
		F f = formula(c["x"]);
		s = carl::formula::findSymmetries(f);
		for (const auto& x : s) l.push(pairs(x));
		r.set("tree", tree(f)).set("syms", l);
		r.set("brk", tree(c["way"].b ? carl::formula::breakSymmetries(f, first) : carl::formula::breakSymmetries<P>(s, first)));
		return r;
	}
	if (op == "lex") {
		for (const auto& g : c["syms"]) {
			carl::formula::Symmetry x;
			for (const auto& p : g) x.emplace_back(all.at(std::size_t(p[0].i - 1)), all.at(std::size_t(p[1].i - 1)));
			s.push_back(x);
		}
		return r.set("brk", tree(carl::formula::breakSymmetries<P>(s, first)));
	}
	throw std::logic_error("driver: op " + op);
}
static void begin(const J& h) {
	setup(h);
	for (auto v : vars()) all.push_back(v);
	for (auto v : bools()) all.push_back(v);
	for (const auto& v : bvs()) all.push_back(v.variable());
	for (const auto& v : us()) all.push_back(v.variable());
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
