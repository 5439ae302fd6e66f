// libs: carl carl-logging
// Constraints (C21).
#include "polyio.h"
#include <carl/formula/Constraint.h>
#include <carl/formula/ConstraintPool.h>
#include <carl/core/SimpleConstraint.h>

using namespace pio;
using C = mpq_class;
using P = carl::MultivariatePolynomial<C>;
using Con = carl::Constraint<P>;
using carl::Relation;

static std::vector<std::unique_ptr<Con>> cs;
static std::vector<std::size_t> ids; // library id -> first seen

static Relation rel(const std::string& s) {
	if (s == "=") return Relation::EQ; if (s == "!=") return Relation::NEQ; if (s == "<") return Relation::LESS;
	if (s == "<=") return Relation::LEQ; if (s == ">") return Relation::GREATER; return Relation::GEQ;
}
static J out(Relation r) {
	switch (r) {
		case Relation::EQ: return J("="); case Relation::NEQ: return J("!="); case Relation::LESS: return J("<");
		case Relation::LEQ: return J("<="); case Relation::GREATER: return J(">"); case Relation::GEQ: return J(">=");
	}
	return J("?");
}
static long ident(const Con& c) {
	for (std::size_t i = 0; i < ids.size(); ++i) if (ids[i] == c.id()) return long(i);
	ids.push_back(c.id()); return long(ids.size()) - 1;
}
static J made(Con&& c) {
	J j = J::obj();
	j.set("lhs", outp(c.lhs())); j.set("rel", out(c.relation())); j.set("cons", J(long(c.isConsistent()))); j.set("id", J(ident(c)));
	cs.push_back(std::make_unique<Con>(std::move(c)));
	return j;
}
static bool live(long i) { return i >= 0 && i < long(cs.size()) && cs[std::size_t(i)]; }
template<typename N> static carl::EvaluationMap<carl::Interval<N>> box(const J& b) {
	carl::EvaluationMap<carl::Interval<N>> m;
	auto bt = [](const J& t) { return t.s == "S" ? carl::BoundType::STRICT : t.s == "W" ? carl::BoundType::WEAK : carl::BoundType::INFTY; };
	auto nn = [](const J& t) { mpq_class q = rat(t); if constexpr (std::is_same<N, double>::value) return q.get_d(); else return q; };
	for (std::size_t i = 0; i < b.size(); ++i) if (b[i].size() == 4)
		m.emplace(vars()[i], carl::Interval<N>(N(nn(b[i][0])), bt(b[i][1]), N(nn(b[i][2])), bt(b[i][3])));
	return m;
}

static void begin(const J& h) { cs.clear(); ids.clear(); vars().clear(); make_vars(h); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "mk") return made(Con(poly<P>(c["p"]), rel(c["rel"].s)));
	if (op == "bound") return made(Con(var(c["v"]), rel(c["rel"].s), rat(c["b"])));
	if (op == "bool") return made(Con(c["b"].b));
	if (op == "simple") {
		carl::SimpleConstraint<P> s(poly<P>(c["p"]), rel(c["rel"].s)), t(poly<P>(c["q"]), rel(c["rel2"].s)), bt(true), bf(false);
		std::hash<carl::SimpleConstraint<P>> h;
		j.set("t", J(s.isTrivialTrue())); j.set("f", J(s.isTrivialFalse()));
		j.set("bt", J(bt.isTrivialTrue() && !bt.isTrivialFalse())); j.set("bf", J(bf.isTrivialFalse() && !bf.isTrivialTrue()));
		j.set("eq", J(s == t && !(s != t))); j.set("hash", J(h(s) == h(t)));
		return j;
	}
	if (op == "bulk") {
		std::vector<Con> l; std::set<std::size_t> seen; bool stable = true; long n = c["n"].i;
		auto mk = [&](long k) { return Con(P(vars()[0]) * P(vars()[0]) + P(C(k + 1)) * P(vars()[0]) - P(C(1)), Relation::LEQ); };
		for (long k = 0; k < n; ++k) { l.push_back(mk(k)); seen.insert(l.back().id()); }
		for (long k = 0; k < n; ++k) { Con x = mk(k); stable = stable && x == l[std::size_t(k)] && x.id() == l[std::size_t(k)].id(); }
		for (long k = 0; k < n; k += 2) l[std::size_t(k)] = Con(true);
		for (long k = 1; k < n; k += 2) { Con x = mk(k); stable = stable && x == l[std::size_t(k)]; }
		j.set("distinct", J(long(seen.size()))); j.set("stable", J(stable));
		return j;
	}
	need(live(c["i"].i));
	Con& a = *cs[std::size_t(c["i"].i)];
	if (op == "copy") { Con b(a); return made(std::move(b)); }
	if (op == "drop") { cs[std::size_t(c["i"].i)].reset(); return j; }
	if (op == "neg") return made(a.negation());
	if (op == "view") {
		J vs = J::arr(), mx = J::arr(), mn = J::arr(), oc = J::arr(), ha = J::arr(), fi = J::arr(), fa = J::arr();
		for (auto v : a.variables()) vs.push(J(varIndex(v)));
		for (auto v : vars()) {
			mx.push(J(long(a.maxDegree(v)))); mn.push(J(long(a.minDegree(v)))); oc.push(J(long(a.occurences(v))));
			ha.push(J(a.hasVariable(v))); fi.push(J(a.hasFinitelyManySolutionsIn(v)));
		}
		j.set("lhs", outp(a.lhs())); j.set("rel", out(a.relation())); j.set("id", J(ident(a)));
		j.set("vars", vs); j.set("maxd", mx); j.set("mind", mn); j.set("occ", oc); j.set("has", ha); j.set("fin", fi);
		j.set("maxdeg", J(long(a.maxDegree()))); j.set("cpart", pio::out(a.constantPart()));
		j.set("intv", J(a.integerValued())); j.set("realv", J(a.realValued()));
		j.set("hasint", J(a.hasIntegerValuedVariable())); j.set("hasreal", J(a.hasRealValuedVariable()));
		j.set("strict", J(a.relationIsStrict())); j.set("weak", J(a.relationIsWeak()));
		j.set("bound", J(a.isBound())); j.set("nbound", J(a.isBound(true))); j.set("lower", J(a.isLowerBound())); j.set("upper", J(a.isUpperBound()));
		if (!carl::isZero(a.lhs())) {
			for (const auto& f : a.factorization()) fa.push(J::arr({outp(f.first), J(long(f.second))}));
			j.set("hasfact", J(a.hasFactorization()));
		}
		j.set("fact", fa);
		return j;
	}
	if (op == "sat") {
		carl::EvaluationMap<C> m;
		for (std::size_t i = 0; i < c["a"].size(); ++i) if (!c["a"][i].s.empty()) m.emplace(vars()[i], rat(c["a"][i]));
		return J(long(a.satisfiedBy(m)));
	}
	if (op == "cons") {
		auto m = box<double>(c["box"]); Relation s = Relation::EQ;
		j.set("res", J(long(a.consistentWith(m)))); j.set("res2", J(long(a.consistentWith(m, s)))); j.set("srel", out(s));
		return j;
	}
	if (op == "eval") return J(long(a.evaluate(box<C>(c["box"]))));
	if (op == "subst") {
		carl::Variable v; P t; long ex = c["excl"].i;
		bool ok = ex == 0 ? a.getSubstitution(v, t, c["neg"].b) : a.getSubstitution(v, t, c["neg"].b, vars()[std::size_t(ex) - 1]);
		j.set("ok", J(ok));
		if (ok) { j.set("v", J(varIndex(v))); j.set("t", outp(t)); }
		return j;
	}
	if (op == "assign") {
		carl::Variable v; C x; bool ok = a.getAssignment(v, x);
		j.set("ok", J(ok));
		if (ok) { j.set("v", J(varIndex(v))); j.set("x", pio::out(x)); }
		return j;
	}
	if (op == "coeff") { if (!a.hasVariable(var(c["v"]))) return J::arr(); return outp(a.coefficient(var(c["v"]), std::size_t(c["d"].i))); }
	need(live(c["j"].i));
	Con& b = *cs[std::size_t(c["j"].i)];
	if (op == "cmp") return J(long(carl::compare(a, b)));
	if (op == "rel") {
		std::hash<Con> h;
		j.set("eq", J(a == b)); j.set("ne", J(a != b)); j.set("lt", J(a < b)); j.set("gt", J(a > b)); j.set("le", J(a <= b)); j.set("ge", J(a >= b));
		j.set("hash", J(h(a) == h(b) && a.getHash() == b.getHash()));
		return j;
	}
	std::abort();
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
