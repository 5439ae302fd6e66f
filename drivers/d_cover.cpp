// libs: carl-covering carl carl-logging
// Set cover problems (C23).
#include "vj.h"
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <carl/util/Bitset.h>
#include <carl/util/Covering.h>
#include <carl-covering/carl-covering.h>

namespace cc = carl::covering;
namespace ch = carl::covering::heuristic;
static std::string kind;
static std::unique_ptr<cc::TypedSetCover<long>> T;
static std::unique_ptr<cc::SetCover> S;
static std::unique_ptr<carl::Covering<long>> C;
static std::vector<long> keys;
static std::size_t nints;
static cc::SetCover& sc() { return T ? T->set_cover() : *S; }
static J list(const carl::Bitset& b) { J l = J::arr(); for (auto x : b) l.push(J(long(std::size_t(x)))); return l; }
static carl::Bitset bits(const J& l) { carl::Bitset b; for (const auto& x : l) b.set(std::size_t(x.i)); return b; }
static J sets() { J l = J::arr(); for (std::size_t i = 0; i < sc().set_count(); ++i) l.push(list(sc().get_set(i))); return l; }
static void begin(const J& h) {
	kind = h["kind"].s; T.reset(); S.reset(); C.reset(); keys.clear();
	if (kind == "typed") T = std::make_unique<cc::TypedSetCover<long>>();
	if (kind == "plain") S = std::make_unique<cc::SetCover>();
	if (kind == "cov") { nints = std::size_t(h["n"].i); C = std::make_unique<carl::Covering<long>>(nints); }
}
static std::size_t ids = 0;
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "add") {
		need(std::find(keys.begin(), keys.end(), c["x"].i) == keys.end());
		C->add(c["x"].i, bits(c["l"])); keys.push_back(c["x"].i); return j;
	}
	if (op == "conf") return J(C->conflicts());
	if (op == "sat") { need(!C->conflicts()); return J(long(C->satisfyingInterval())); }
	if (op == "core") { need(C->conflicts()); std::vector<long> v; C->buildConflictingCore(v); J l = J::arr(); for (long x : v) l.push(J(x)); return l; }
	if (op == "set") { if (T) T->set(c["x"].i, std::size_t(c["e"].i)); else S->set(std::size_t(c["x"].i), std::size_t(c["e"].i)); return j; }
	if (op == "setb") { carl::Bitset b = bits(c["l"]); if (T) T->set(c["x"].i, b); else S->set(std::size_t(c["x"].i), b); return j; }
	if (op == "select") { need(std::size_t(c["i"].i) < sc().set_count()); sc().select_set(std::size_t(c["i"].i)); return j; }
	if (op == "prune") { sc().prune_sets(); return j; }
	if (op == "view") {
		std::stringstream ss; ss << sc();
		j.set("n", J(long(sc().set_count()))); j.set("active", J(long(sc().active_set_count()))); j.set("sets", sets()); j.set("left", list(sc().get_uncovered()));
		j.set("elems", J(long(sc().element_count())));
		if (sc().set_count() > 0) j.set("largest", J(long(sc().largest_set())));
		if (T) { J n = J::arr(); for (std::size_t i = 0; i < sc().set_count(); ++i) n.push(J(T->get_set(i))); j.set("names", n); }
		return j;
	}
	if (op == "heur") {
		const std::string& h = c["h"].s; std::size_t bound = std::size_t(c["bound"].i);
		auto weight = [&](long x) { return double(c["w"][std::size_t(x) % 5].i); };
		auto run = [&](cc::SetCover& s) -> carl::Bitset {
			if (h == "trivial") return ch::trivial(s);
			if (h == "greedy") return ch::greedy(s);
			if (h == "exact") return ch::exact(s);
			if (h == "bounded") return ch::greedy_bounded(s, bound);
			if (h == "dups") return ch::remove_duplicates(s);
			if (h == "essential") return ch::select_essential(s);
			if (T) return ch::greedy_weighted(*T, weight, bound);
			std::vector<double> w; for (std::size_t i = 0; i < s.set_count(); ++i) w.push_back(weight(long(i)));
			return ch::greedy_weighted(s, w, bound);
		};
		J sel = J::arr();
		if (T) {
			for (long x : T->get_cover([&](cc::SetCover& s) { static carl::Bitset b; b = run(s); return b; })) sel.push(J(x));
		} else sel = list(run(*S));
		j.set("sel", sel); j.set("rest", sets());
		return j;
	}
	std::abort();
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
