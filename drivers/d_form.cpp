// libs: carl carl-logging
// shim
// Formulas (C22).
#include "polyio.h"
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/helpers/to_cnf.h>
#include <map>

using namespace pio;
using C = mpq_class;
using P = carl::MultivariatePolynomial<C>;
using F = carl::Formula<P>;
using carl::FormulaType;
using carl::Relation;

static std::map<long, F> fs;
static std::vector<carl::Variable> bools; // the first nb are those of the session, further ones in order of appearance
static Relation rel(const std::string& s) {
	if (s == "=") return Relation::EQ; if (s == "!=") return Relation::NEQ; if (s == "<") return Relation::LESS;
	if (s == "<=") return Relation::LEQ; if (s == ">") return Relation::GREATER; return Relation::GEQ;
}
static const char* relname(Relation r) {
	switch (r) { case Relation::EQ: return "="; case Relation::NEQ: return "!="; case Relation::LESS: return "<"; case Relation::LEQ: return "<="; case Relation::GREATER: return ">"; case Relation::GEQ: return ">="; }
	return "?";
}
static FormulaType type(const std::string& t) {
	if (t == "and") return FormulaType::AND; if (t == "or") return FormulaType::OR; if (t == "xor") return FormulaType::XOR; if (t == "iff") return FormulaType::IFF;
	if (t == "implies") return FormulaType::IMPLIES; if (t == "ite") return FormulaType::ITE;
	throw std::logic_error("driver: type " + t);
}
static long boolIndex(carl::Variable v) {
	for (std::size_t i = 0; i < bools.size(); ++i) if (bools[i] == v) return long(i) + 1;
	bools.push_back(v); return long(bools.size());
}
static J node(const char* t) { J j = J::obj(); j.set("t", J(t)); j.set("v", J(0L)); j.set("p", J::arr()); j.set("r", J("")); j.set("a", J::arr()); return j; }
static J tree(const F& f) {
	auto nary = [&](const char* t) { J j = node(t), a = J::arr(); for (const auto& s : f.subformulas()) a.push(tree(s)); j.set("a", a); return j; };
	switch (f.getType()) {
		case FormulaType::TRUE: return node("true");
		case FormulaType::FALSE: return node("false");
		case FormulaType::BOOL: { J j = node("bool"); j.set("v", J(boolIndex(f.boolean()))); return j; }
		case FormulaType::CONSTRAINT: { J j = node("con"); j.set("p", outp(f.constraint().lhs())); j.set("r", J(relname(f.constraint().relation()))); return j; }
		case FormulaType::NOT: { J j = node("not"), a = J::arr(); a.push(tree(f.subformula())); j.set("a", a); return j; }
		case FormulaType::AND: return nary("and");
		case FormulaType::OR: return nary("or");
		case FormulaType::XOR: return nary("xor");
		case FormulaType::IFF: return nary("iff");
		case FormulaType::IMPLIES: return nary("implies");
		case FormulaType::ITE: return nary("ite");
		default: return node("other");
	}
}
static const F& h(const J& j) { auto it = fs.find(j.i); if (it == fs.end()) throw std::logic_error("driver: handle"); return it->second; }
static J made(const J& c, const F& f) {
	J j = J::obj(), same = J::arr(), less = J::arr();
	j.set("tree", tree(f));
	for (const auto& [k, g] : fs) { if (g == f) same.push(J(k)); if (g == f && (g != f || g < f || g > f || !(g <= f) || !(g >= f) || g.getHash() != f.getHash())) same.push(J(-1L)); if (g != f && !((g < f) != (f < g))) same.push(J(-2L)); }
	j.set("same", same);
	F n = !f, nn = n.negated();
	j.set("neg", tree(n)); j.set("nn", J(nn == f && n != f)); j.set("not", J(F(FormulaType::NOT, f) == n));
	J vs = J::arr(), bs = J::arr();
	std::set<long> vi, bi;
	carl::carlVariables cv; carl::variables(f, cv);
	for (auto v : cv) { if (v.type() == carl::VariableType::VT_BOOL) bi.insert(boolIndex(v)); else vi.insert(varIndex(v)); }
	for (long i : vi) vs.push(J(i)); for (long i : bi) bs.push(J(i));
	j.set("vars", vs); j.set("bools", bs);
	j.set("cnf", J(f.propertyHolds(carl::PROP_IS_IN_CNF))); j.set("lit", J(f.isLiteral())); j.set("atom", J(f.isAtom())); j.set("clause", J(f.propertyHolds(carl::PROP_IS_A_CLAUSE)));
	auto has = [&](const carl::Condition& x) { return J(f.propertyHolds(x)); };
	j.set("hasbool", has(carl::PROP_CONTAINS_BOOLEAN)); j.set("eq", has(carl::PROP_CONTAINS_EQUATION)); j.set("ineq", has(carl::PROP_CONTAINS_INEQUALITY));
	j.set("strict", has(carl::PROP_CONTAINS_STRICT_INEQUALITY)); j.set("weak", has(carl::PROP_CONTAINS_WEAK_INEQUALITY));
	j.set("lin", has(carl::PROP_CONTAINS_LINEAR_POLYNOMIAL)); j.set("nonlin", has(carl::PROP_CONTAINS_NONLINEAR_POLYNOMIAL));
	j.set("prop", J(f.isOnlyPropositional())); j.set("conj", J(f.isConstraintConjunction() && (f.isRealConstraintConjunction() || f.isIntegerConstraintConjunction())));
	J inside = J::arr(); for (const auto& [k, g] : fs) if (f.contains(g)) inside.push(J(k));
	j.set("inside", inside);
	std::vector<carl::Constraint<P>> cs; f.getConstraints(cs); std::vector<F> fcs; f.getConstraints(fcs);
	std::set<F> dc(fcs.begin(), fcs.end()); std::set<F> dk; for (const auto& x : cs) dk.insert(F(x));
	j.set("ncons", J(dc == dk ? long(dc.size()) : -1L));
	if (c.has("to")) { fs.erase(c["to"].i); fs.emplace(c["to"].i, f); }
	return j;
}
// The formula of a whole tree, of which nothing but the result is kept.
static F build(const J& t, bool way) {
	const std::string& k = t["t"].s;
	if (k == "true" || k == "false") return F(k == "true" ? FormulaType::TRUE : FormulaType::FALSE);
	if (k == "bool") return F(bools.at(std::size_t(t["v"].i - 1)));
	if (k == "con") return F(poly<P>(t["p"]), rel(t["r"].s));
	if (k == "not") return way ? F(FormulaType::NOT, build(t["a"][0], way)) : build(t["a"][0], way).negated();
	if (t["a"].size() == 2 && way) return F(type(k), build(t["a"][0], way), build(t["a"][1], way));
	carl::Formulas<P> s; for (const auto& x : t["a"]) s.push_back(build(x, way));
	return F(type(k), std::move(s));
}
static void begin(const J& hd) {
	fs.clear(); bools.clear(); vars().clear(); make_vars(hd);
	for (long i = 0; i < hd["nb"].i; ++i) bools.push_back(carl::freshBooleanVariable("b" + std::to_string(i)));
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "const") return made(c, F(c["b"].b ? FormulaType::TRUE : FormulaType::FALSE));
	if (op == "bool") return made(c, F(bools.at(std::size_t(c["v"].i - 1))));
	if (op == "con") return made(c, F(poly<P>(c["p"]), rel(c["rel"].s)));
	if (op == "not") return made(c, c["way"].b ? F(FormulaType::NOT, h(c["x"])) : !h(c["x"]));
	if (op == "mk") {
		carl::Formulas<P> s; for (const auto& x : c["a"]) s.push_back(h(x));
		if (s.size() == 2 && c["way"].b) return made(c, F(type(c["t"].s), s[0], s[1]));
		if (s.size() == 1 && c["way"].b) return made(c, F(type(c["t"].s), s[0]));
		return made(c, F(type(c["t"].s), std::move(s)));
	}
	if (op == "build") return made(c, build(c["x"], c["way"].b));
	if (op == "copy") { F f(h(c["x"])); F g = std::move(f); return made(c, g); }
	if (op == "drop") { fs.erase(c["x"].i); return J("done"); }
	if (op == "resolve") return made(c, h(c["x"]).resolveNegation(c["keep"].b));
	if (op == "cnf") return made(c, carl::to_cnf(h(c["x"]), c["keep"].b, c["simp"].b, c["eq"].b));
	if (op == "subst") {
		std::map<carl::Variable, F> bm; std::map<carl::Variable, P> am;
		for (const auto& e : c["bm"]) bm.emplace(bools.at(std::size_t(e[0].i - 1)), h(e[1]));
		for (const auto& e : c["am"]) am.emplace(var(e[0]), poly<P>(e[1]));
		if (c["way"].b && bm.empty()) return made(c, carl::FormulaSubstitutor<F>().substitute(h(c["x"]), am));
		if (c["way"].b && am.empty()) { std::map<F, F> m; for (const auto& [v, f] : bm) m.emplace(F(v), f); return made(c, carl::FormulaSubstitutor<F>().substitute(h(c["x"]), m)); }
		return made(c, h(c["x"]).substitute(bm, am));
	}
	throw std::logic_error("driver: op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
