// libs: carl carl-logging
// shim
// Tarski queries, sign determination and Thom encodings (C38).
#include "polyio.h"
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/formula/Constraint.h>
namespace carl { template<typename N> struct real_algebraic_number_z3; }
#include <carl/ran/thom/ThomRootFinder.h>

using namespace pio;
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using carl::BoundType;
using carl::Interval;
using TE = carl::ThomEncoding<Q>;
struct Enc { TE te; std::size_t base; };
static std::unique_ptr<carl::TarskiQueryManager<Q>> taq;
static std::unique_ptr<carl::SignDetermination<Q>> sd;
static std::vector<Enc> encs;

static BoundType bt(const J& t) { return t.s == "S" ? BoundType::STRICT : t.s == "W" ? BoundType::WEAK : BoundType::INFTY; }
static Interval<Q> ivl(const J& v) { return Interval<Q>(rat(v[0]), bt(v[1]), rat(v[2]), bt(v[3])); }
static P pl(const J& j) { return poly<P>(j); }
static J sgns(const carl::SignCondition& s) {
	J l = J::arr();
	for (auto x : s) l.push(J(long(x)));
	return l;
}
static J conds(const std::list<carl::SignCondition>& s) {
	J l = J::arr();
	for (const auto& x : s) l.push(sgns(x));
	return l;
}
// An encoding: its polynomial and the signs of its last derivatives.
static J wire(const TE& t) { return J::obj().set("p", outp(t.polynomial())).set("s", sgns(t.relevantSignCondition())); }
static std::size_t at(const J& i) {
	need(!encs.empty());
	return std::size_t(i.i) % encs.size();
}
static int cmpOf(carl::ThomComparisonResult r) { return r == carl::LESS ? -1 : r == carl::EQUAL ? 0 : 1; }
static J keep(const std::list<TE>& l, std::size_t base) {
	J r = J::arr();
	for (const auto& t : l) {
		encs.push_back({t, base});
		r.push(wire(t));
	}
	return r;
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "taq") return J(long((*taq)(pl(c["p"]))));
	if (op == "size") return J(long(sd->sizeOfZeroSet()));
	if (op == "signs") return conds(sd->getSigns(pl(c["p"])));
	if (op == "add") return conds(sd->getSignsAndAdd(pl(c["p"])));
	if (op == "roots") return keep(carl::realRootsThom<Q>(pl(c["p"]), vars()[0], std::map<carl::Variable, TE>{}, ivl(c["iv"])), 0);
	if (op == "lift") {
		std::size_t i = at(c["i"]);
		need(encs[i].base == 0);
		return keep(carl::realRootsThom<Q>(pl(c["p"]), vars()[1], {{vars()[0], encs[i].te}}, ivl(c["iv"])), i + 1);
	}
	std::size_t i = at(c["i"]);
	if (op == "cmp" || op == "mid") {
		std::size_t j = at(c["j"]);
		need(encs[i].base == encs[j].base);
		if (op == "cmp") return J(long(cmpOf(TE::compare(encs[i].te, encs[j].te))));
		need(encs[i].base == 0 && encs[i].te < encs[j].te);
		return wire(TE::intermediatePoint(encs[i].te, encs[j].te));
	}
	if (op == "cmpq") return J(long(cmpOf(TE::compareRational(encs[i].te, rat(c["c"])))));
	if (op == "midq") {
		Q q = rat(c["c"]);
		if (encs[i].te < q) return out(TE::intermediatePoint(encs[i].te, q));
		need(encs[i].te > q);
		return out(TE::intermediatePoint(q, encs[i].te));
	}
	if (op == "sgn") {
		P p = pl(c["p"]);
		auto known = encs[i].te.accumulateVariables();
		for (auto v : vars()) need(!p.has(v) || std::find(known.begin(), known.end(), v) != known.end());
		return J(long(encs[i].te.signOnPolynomial(p)));
	}
	if (op == "in") return J(encs[i].te.containedIn(ivl(c["iv"])));
	if (op == "plus") {
		need(encs[i].base == 0);
		return keep({encs[i].te + rat(c["c"])}, 0);
	}
	throw std::logic_error("driver: op " + op);
}
static void begin(const J& h) {
	make_vars(h);
	std::vector<P> zs;
	for (const auto& z : h["zs"]) zs.push_back(pl(z));
	if (zs.empty()) return;
	taq = std::make_unique<carl::TarskiQueryManager<Q>>(zs.begin(), zs.end());
	sd = std::make_unique<carl::SignDetermination<Q>>(zs.begin(), zs.end());
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
