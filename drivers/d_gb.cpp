// libs: carl carl-logging
// Groebner bases and ideals (C11).
#include "polyio.h"
#include <list>
#include <memory>
#include <carl/groebner/GBProcedure.h>
#include <carl/groebner/Ideal.h>
#include <carl/groebner/groebner.h>

using namespace pio;
using C = mpq_class;
using PN = carl::MultivariatePolynomial<C>;
using PR = carl::MultivariatePolynomial<C, carl::GrLexOrdering, carl::StdMultivariatePolynomialPolicies<carl::BVReasons, carl::NoAllocator>>;

static J bits(const carl::BitVector& b) { J l = J::arr(); for (unsigned i = 0; i < 64; ++i) if (b.getBit(i)) l.push(J(long(i))); return l; }
struct Machine { virtual ~Machine() = default; virtual J cmd(const J& c) = 0; };

template<typename P, template<typename> class Adding>
struct Proc : Machine {
	using G = carl::GBProcedure<P, carl::Buchberger, Adding>;
	std::unique_ptr<G> g = std::make_unique<G>();
	unsigned added = 0;
	J cmd(const J& c) override {
		const std::string& op = c["op"].s;
		J j = J::obj();
		if (op == "add") {
			P p = poly<P>(c["p"]);
			if (P::Policy::has_reasons) { carl::BitVector b; b.setBit(added); p.setReasons(b); }
			++added; g->addPolynomial(p); return j;
		}
		if (op == "calc") {
			g->calculate();
			J b = J::arr(), rs = J::arr();
			for (const auto& p : g->getBasisPolynomials()) { b.push(outp(p)); rs.push(bits(p.getReasons())); }
			j.set("basis", b); j.set("reasons", rs); j.set("const", J(g->basisIsConstant())); j.set("left", J(g->inputEmpty()));
			return j;
		}
		if (op == "redin") {
			g->reduceInput();
			// the scheduled polynomials are those a copy adds to an empty basis
			std::stringstream ss; J s = J::arr();
			for (const auto& p : scheduled()) s.push(outp(p));
			j.set("sched", s);
			return j;
		}
		if (op == "reset") { g->reset(); return j; }
		if (op == "copy") { g = std::make_unique<G>(*g); return j; }
		if (op == "view") {
			J b = J::arr(); for (const auto& p : g->listBasisPolynomials()) b.push(outp(p));
			j.set("basis", b); j.set("orig", J(long(g->nrOrigGenerators()))); j.set("linear", J(g->getIdeal().isLinear()));
			return j;
		}
		if (op == "red") {
			P p = poly<P>(c["p"]);
			carl::Reductor<P, P> r(g->getIdeal(), p);
			P res = r.fullReduce();
			j.set("p", outp(res)); j.set("occ", J(r.reductionOccured()));
			return j;
		}
		std::abort();
	}
	// Scheduled polynomials are only printed; the text is read back.
	std::vector<P> scheduled() {
		std::stringstream ss; g->printScheduledPolynomials(true, false, ss);
		std::vector<P> res; std::string line;
		while (std::getline(ss, line)) res.push_back(parse(line));
		return res;
	}
	static P parse(const std::string& s) {
		P res; std::size_t i = 0;
		auto ws = [&]() { while (i < s.size() && (s[i] == ' ')) ++i; };
		bool first = true;
		while (ws(), i < s.size()) {
			bool neg = false;
			if (!first || s[i] == '+' || s[i] == '-') { while (i < s.size() && (s[i] == '+' || s[i] == '-' || s[i] == ' ')) { if (s[i] == '-') neg = !neg; ++i; } }
			first = false;
			C co = neg ? -1 : 1; std::map<Variable, std::size_t> ex;
			while (true) {
				ws(); bool par = false;
				if (s[i] == '(') { par = true; ++i; }
				if (s[i] == 'v') {
					std::size_t k = i + 1; while (k < s.size() && isdigit(s[k])) ++k;
					Variable v = vars().at(std::stoul(s.substr(i + 1, k - i - 1))); i = k; std::size_t e = 1;
					if (i < s.size() && s[i] == '^') { k = ++i; while (k < s.size() && isdigit(s[k])) ++k; e = std::stoul(s.substr(i, k - i)); i = k; }
					ex[v] += e;
				} else {
					std::size_t k = i; while (k < s.size() && (isdigit(s[k]) || s[k] == '/' || (s[k] == '-' && k == i))) ++k;
					co *= C(s.substr(i, k - i)); i = k;
				}
				if (par && s[i] == ')') ++i;
				ws();
				if (i < s.size() && s[i] == '*') { ++i; continue; }
				break;
			}
			carl::Monomial::Content con(ex.begin(), ex.end());
			res += carl::Term<C>(co, con.empty() ? nullptr : carl::MonomialPool::getInstance().create(std::move(con)));
		}
		return res;
	}
};

struct Id : Machine {
	using P = PN;
	std::unique_ptr<carl::Ideal<P>> g = std::make_unique<carl::Ideal<P>>();
	std::set<std::size_t> elim;
	J cmd(const J& c) override {
		const std::string& op = c["op"].s;
		J j = J::obj();
		if (op == "iadd") { P p = poly<P>(c["p"]); need(!carl::isZero(p)); return J(long(g->addGenerator(p))); }
		if (op == "ielim") { std::size_t i = std::size_t(c["i"].i); need(i < g->nrGenerators() && !elim.count(i)); g->eliminateGenerator(i); elim.insert(i); return j; }
		if (op == "icompact") { g->removeEliminated(); elim.clear(); return j; }
		if (op == "icopy") { g = std::make_unique<carl::Ideal<P>>(*g); elim.clear(); return j; }
		if (op == "iclear") { g->clear(); elim.clear(); return j; }
		if (op == "idiv") {
			auto t = term<C>(c["t"]); need(!carl::isZero(t));
			auto r = g->getDivisor(t);
			j.set("found", J(r.success()));
			if (r.success()) { j.set("i", J(long(r.mDivisor - &g->getGenerators()[0]))); j.set("f", out(r.mFactor)); }
			return j;
		}
		if (op == "ired") { carl::Reductor<P, P> r(*g, poly<P>(c["p"])); j.set("p", outp(r.fullReduce())); return j; }
		if (op == "iview") {
			J l = J::arr(), o = J::arr();
			for (std::size_t i = 0; i < g->nrGenerators(); ++i) l.push(outp(g->getGenerator(i)));
			for (auto i : g->getOrderedIndices()) o.push(J(long(i)));
			j.set("n", J(long(g->nrGenerators()))); j.set("gens", l); j.set("ord", o);
			return j;
		}
		std::abort();
	}
};

static std::unique_ptr<Machine> m;
static void begin(const J& h) {
	vars().clear(); make_vars(h);
	const std::string& k = h["kind"].s; bool rs = h["reasons"].b;
	if (k == "ideal") m = std::make_unique<Id>();
	else if (k == "std") { if (rs) m = std::make_unique<Proc<PR, carl::StdAdding>>(); else m = std::make_unique<Proc<PN, carl::StdAdding>>(); }
	else { if (rs) m = std::make_unique<Proc<PR, carl::RealRadicalAwareAdding>>(); else m = std::make_unique<Proc<PN, carl::RealRadicalAwareAdding>>(); }
}
static J cmd(const J& c) { return m->cmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
