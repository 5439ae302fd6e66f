// libs: carl carl-logging
// Bit-vector terms and constraints (C20).
#include "bvio.h"
#include <carl/core/Variables.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/SortManager.h>

using namespace carl;
using T = BVTermType;
static const std::vector<std::pair<std::string, T>> NAMES = {{"const", T::CONSTANT}, {"var", T::VARIABLE}, {"concat", T::CONCAT}, {"extract", T::EXTRACT}, {"not", T::NOT}, {"neg", T::NEG},
	{"and", T::AND}, {"or", T::OR}, {"xor", T::XOR}, {"nand", T::NAND}, {"nor", T::NOR}, {"xnor", T::XNOR}, {"add", T::ADD}, {"sub", T::SUB}, {"mul", T::MUL}, {"udiv", T::DIV_U}, {"sdiv", T::DIV_S},
	{"urem", T::MOD_U}, {"srem", T::MOD_S1}, {"smod", T::MOD_S2}, {"eq", T::EQ}, {"shl", T::LSHIFT}, {"lshr", T::RSHIFT_LOGIC}, {"ashr", T::RSHIFT_ARITH}, {"lrot", T::LROTATE}, {"rrot", T::RROTATE},
	{"extu", T::EXT_U}, {"exts", T::EXT_S}, {"rep", T::REPEAT}};
using C = BVCompareRelation;
static const std::vector<std::pair<std::string, C>> RELS = {{"eq", C::EQ}, {"ne", C::NEQ}, {"ult", C::ULT}, {"ule", C::ULE}, {"ugt", C::UGT}, {"uge", C::UGE}, {"slt", C::SLT}, {"sle", C::SLE}, {"sgt", C::SGT}, {"sge", C::SGE}};
template<typename X> std::string nameOf(const std::vector<std::pair<std::string, X>>& v, X x) { for (const auto& p : v) if (p.second == x) return p.first; return "?"; }
template<typename X> X byName(const std::vector<std::pair<std::string, X>>& v, const std::string& n) { for (const auto& p : v) if (p.first == n) return p.second; throw std::logic_error("driver: name " + n); }

static std::vector<BVVariable> vars;
static std::vector<std::size_t> vw;
static std::vector<BVTerm> R;
static std::vector<BVTerm> seenT;
static std::vector<BVConstraint> seenC;

static long vidx(const BVVariable& v) { for (std::size_t i = 1; i < vars.size(); ++i) if (vars[i] == v) return long(i); return 0; }
static J tree(const BVTerm& t) {
	J j = J::obj();
	T ty = t.type();
	std::string n = "0"; long i = 0, k = 0; J sub = J::arr();
	if (ty == T::CONSTANT) n = bvio::out(t.value())["n"].s;
	else if (ty == T::VARIABLE) i = vidx(t.variable());
	else if (ty == T::EXTRACT) { i = long(t.highest()); k = long(t.lowest()); sub.push(tree(t.operand())); }
	else if (typeIsUnary(ty)) { i = long(t.index()); sub.push(tree(t.operand())); }
	else { sub.push(tree(t.first())); sub.push(tree(t.second())); }
	j.set("o", J(nameOf(NAMES, ty))); j.set("n", J(n)); j.set("w", J((long)t.width())); j.set("i", J(i)); j.set("j", J(k)); j.set("k", sub);
	return j;
}
template<typename X> long ident(std::vector<X>& seen, const X& x) {
	for (std::size_t i = 0; i < seen.size(); ++i) if (seen[i] == x) return long(i + 1);
	seen.push_back(x); return long(seen.size());
}
static J outVars(const std::set<BVVariable>& s) { J a = J::arr(); for (const auto& v : s) a.push(J(vidx(v))); return a; }
static J outT(const BVTerm& t) {
	J j = J::obj();
	std::set<BVVariable> vs; t.gatherBVVariables(vs);
	long id = ident(seenT, t);
	j.set("t", tree(t)); j.set("id", J(id)); j.set("vars", outVars(vs)); j.set("const", J(t.isConstant())); j.set("hash", J(std::hash<BVTerm>()(t) == seenT[std::size_t(id - 1)].hash()));
	return j;
}
static J outC(const BVConstraint& c) {
	J j = J::obj();
	std::set<BVVariable> vs; c.gatherBVVariables(vs);
	carlVariables cv; c.gatherVariables(cv);
	J a = J::arr(); for (std::size_t i = 1; i < vars.size(); ++i) if (cv.has(vars[i].variable())) a.push(J((long)i));
	j.set("rel", J(nameOf(RELS, c.relation()))); j.set("l", tree(c.lhs())); j.set("r", tree(c.rhs())); j.set("id", J(ident(seenC, c))); j.set("bvars", outVars(vs)); j.set("vars", a);
	j.set("t", J(c.isAlwaysConsistent())); j.set("f", J(c.isAlwaysInconsistent())); j.set("c", J(c.isConstant()));
	return j;
}
static void begin(const J& h) {
	auto& sm = SortManager::getInstance();
	static Sort base = [&]() { Sort s = sm.addSort("BitVec", VariableType::VT_UNINTERPRETED); sm.makeSortIndexable(s, 1, VariableType::VT_BITVECTOR); return s; }();
	vars.assign(1, BVVariable()); vw.assign(1, 0); seenT.clear(); seenC.clear();
	for (const auto& w : h["vw"]) { vw.push_back(std::size_t(w.i)); vars.emplace_back(freshBitvectorVariable(), sm.index(base, {std::size_t(w.i)})); }
	R.assign(std::size_t(h["k"].i) + 1, BVTerm(T::CONSTANT, BVValue(1, 0)));
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	auto r = [&](const char* k) -> BVTerm& { return R.at(std::size_t(c[k].i)); };
	auto put = [&](BVTerm v) { r("d") = v; return outT(r("d")); };
	if (op == "const") return put(BVTerm(T::CONSTANT, bvio::in(std::size_t(c["w"].i), c["n"].s)));
	if (op == "var") return put(BVTerm(T::VARIABLE, vars.at(std::size_t(c["v"].i))));
	if (op == "un") { if (c["o"] == "rep") need(c["i"].i > 0); return put(BVTerm(byName(NAMES, c["o"].s), r("a"), std::size_t(c["i"].i))); }
	if (op == "bin") { if (!(c["o"] == "concat")) need(r("a").width() == r("b").width()); return put(BVTerm(byName(NAMES, c["o"].s), r("a"), r("b"))); }
	if (op == "ext") { need(c["l"].i <= c["h"].i && std::size_t(c["h"].i) < r("a").width()); return put(BVTerm(T::EXTRACT, r("a"), std::size_t(c["h"].i), std::size_t(c["l"].i))); }
	if (op == "sub") {
		std::map<BVVariable, BVTerm> m;
		for (const auto& p : c["m"]) { const BVTerm& t = R.at(std::size_t(p[1].i)); need(t.width() == vw.at(std::size_t(p[0].i))); m.emplace(vars.at(std::size_t(p[0].i)), t); }
		return put(r("a").substitute(m));
	}
	if (op == "con") { need(r("a").width() == r("b").width()); return outC(BVConstraint::create(byName(RELS, c["rel"].s), r("a"), r("b"))); }
	if (op == "tcon") return outC(BVConstraint::create(c["b"].b));
	if (op == "rel") { C x = byName(RELS, c["rel"].s); J j = J::obj(); j.set("inv", J(nameOf(RELS, inverse(x)))); j.set("signed", J(relationIsSigned(x))); j.set("strict", J(relationIsStrict(x))); return j; }
	if (op == "ord") { J j = J::obj(); j.set("eq", J(r("a") == r("b"))); j.set("lt", J(r("a") < r("b"))); j.set("gt", J(r("b") < r("a"))); j.set("ida", J(ident(seenT, r("a")))); j.set("idb", J(ident(seenT, r("b")))); return j; }
	throw std::logic_error("driver: bad op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
