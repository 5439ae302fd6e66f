// JSON <-> formulas over arithmetic constraints, Booleans, bit vectors, uninterpreted equalities and root comparisons.
#pragma once
#include "polyio.h"
#include "bvio.h"
#include <carl/core/Variables.h>
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/VariableAssignment.h>
#include <carl/formula/VariableComparison.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl/formula/model/mvroot/MultivariateRoot.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UTerm.h>
#include <carl/ran/ran.h>

namespace fio {
using namespace pio;
using C = mpq_class;
using P = carl::MultivariatePolynomial<C>;
using U = carl::UnivariatePolynomial<C>;
using F = carl::Formula<P>;
using R = carl::RealAlgebraicNumber<C>;
using MR = carl::MultivariateRoot<P>;
using VC = carl::VariableComparison<P>;
using VA = carl::VariableAssignment<P>;
using carl::BVTerm;
using carl::FormulaType;
using carl::Relation;
using BT = carl::BVTermType;
using BC = carl::BVCompareRelation;

inline std::vector<carl::Variable>& bools() { static std::vector<carl::Variable> v; return v; }
inline std::vector<carl::BVVariable>& bvs() { static std::vector<carl::BVVariable> v; return v; }
inline std::vector<carl::UVariable>& us() { static std::vector<carl::UVariable> v; return v; }
inline std::vector<carl::UninterpretedFunction>& ufs() { static std::vector<carl::UninterpretedFunction> v; return v; }
inline carl::Sort& usort() { static carl::Sort s; return s; }

static const std::vector<std::pair<std::string, BT>> NAMES = {{"const", BT::CONSTANT}, {"var", BT::VARIABLE}, {"concat", BT::CONCAT}, {"extract", BT::EXTRACT}, {"not", BT::NOT}, {"neg", BT::NEG},
	{"and", BT::AND}, {"or", BT::OR}, {"xor", BT::XOR}, {"nand", BT::NAND}, {"nor", BT::NOR}, {"xnor", BT::XNOR}, {"add", BT::ADD}, {"sub", BT::SUB}, {"mul", BT::MUL}, {"udiv", BT::DIV_U}, {"sdiv", BT::DIV_S},
	{"urem", BT::MOD_U}, {"srem", BT::MOD_S1}, {"smod", BT::MOD_S2}, {"eq", BT::EQ}, {"shl", BT::LSHIFT}, {"lshr", BT::RSHIFT_LOGIC}, {"ashr", BT::RSHIFT_ARITH}, {"lrot", BT::LROTATE}, {"rrot", BT::RROTATE},
	{"extu", BT::EXT_U}, {"exts", BT::EXT_S}, {"rep", BT::REPEAT}};
static const std::vector<std::pair<std::string, BC>> BVRELS = {{"eq", BC::EQ}, {"ne", BC::NEQ}, {"ult", BC::ULT}, {"ule", BC::ULE}, {"ugt", BC::UGT}, {"uge", BC::UGE}, {"slt", BC::SLT}, {"sle", BC::SLE}, {"sgt", BC::SGT}, {"sge", BC::SGE}};
static const std::vector<std::pair<std::string, Relation>> RELS = {{"=", Relation::EQ}, {"!=", Relation::NEQ}, {"<", Relation::LESS}, {"<=", Relation::LEQ}, {">", Relation::GREATER}, {">=", Relation::GEQ}};
static const std::vector<std::pair<std::string, FormulaType>> TYPES = {{"and", FormulaType::AND}, {"or", FormulaType::OR}, {"xor", FormulaType::XOR}, {"iff", FormulaType::IFF}, {"implies", FormulaType::IMPLIES}, {"ite", FormulaType::ITE}, {"not", FormulaType::NOT},
	{"true", FormulaType::TRUE}, {"false", FormulaType::FALSE}};
template<typename X> std::string nameOf(const std::vector<std::pair<std::string, X>>& v, X x) { for (const auto& p : v) if (p.second == x) return p.first; return "?"; }
template<typename X> X byName(const std::vector<std::pair<std::string, X>>& v, const std::string& n) { for (const auto& p : v) if (p.first == n) return p.second; throw std::logic_error("driver: name " + n); }
template<typename X> long indexOf(const std::vector<X>& v, const X& x) { for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == x) return long(i) + 1; return 0; }
inline Relation rel(const J& j) { return byName(RELS, j.s); }

// Bit vectors: variable numbers start at 1.
inline J bvtree(const BVTerm& t) {
	BT ty = t.type();
	std::string n = "0"; long i = 0, k = 0; J sub = J::arr();
	if (ty == BT::CONSTANT) n = bvio::out(t.value())["n"].s;
	else if (ty == BT::VARIABLE) i = indexOf(bvs(), t.variable());
	else if (ty == BT::EXTRACT) { i = long(t.highest()); k = long(t.lowest()); sub.push(bvtree(t.operand())); }
	else if (typeIsUnary(ty)) { i = long(t.index()); sub.push(bvtree(t.operand())); }
	else { sub.push(bvtree(t.first())); sub.push(bvtree(t.second())); }
	return J::obj().set("o", J(nameOf(NAMES, ty))).set("n", J(n)).set("w", J((long)t.width())).set("i", J(i)).set("j", J(k)).set("k", sub);
}
inline BVTerm bvterm(const J& t) {
	BT ty = byName(NAMES, t["o"].s);
	if (ty == BT::CONSTANT) return BVTerm(ty, bvio::in(std::size_t(t["w"].i), t["n"].s));
	if (ty == BT::VARIABLE) return BVTerm(ty, bvs().at(std::size_t(t["i"].i - 1)));
	if (ty == BT::EXTRACT) return BVTerm(ty, bvterm(t["k"][0]), std::size_t(t["i"].i), std::size_t(t["j"].i));
	if (typeIsUnary(ty)) return BVTerm(ty, bvterm(t["k"][0]), std::size_t(t["i"].i));
	return BVTerm(ty, bvterm(t["k"][0]), bvterm(t["k"][1]));
}
// Uninterpreted terms.
inline carl::UTerm uterm(const J& t) {
	if (t["f"].i == 0) return carl::UTerm(us().at(std::size_t(t["u"].i - 1)));
	std::vector<carl::UTerm> a;
	for (const auto& x : t["a"]) a.push_back(uterm(x));
	return carl::UTerm(carl::newUFInstance(ufs().at(std::size_t(t["f"].i - 1)), std::move(a)));
}
inline J uout(const carl::UTerm& t) {
	J a = J::arr();
	if (t.isUVariable()) return J::obj().set("f", J(0L)).set("u", J(indexOf(us(), t.asUVariable()))).set("a", a);
	for (const auto& x : t.asUFInstance().args()) a.push(uout(x));
	return J::obj().set("f", J(indexOf(ufs(), t.asUFInstance().uninterpretedFunction()))).set("u", J(0L)).set("a", a);
}
// Numbers: ["q", c], ["a", p, l, u]; root expressions: ["r", terms with one more exponent for the root variable, k].
inline J num(const R& r) {
	if (r.is_numeric()) return J::arr({J("q"), out(r.value())});
	return J::arr({J("a"), outu(r.polynomial()), out(r.interval().lower()), out(r.interval().upper())});
}
inline R ran(const J& v) {
	if (v[0] == "q") return R(rat(v[1]));
	static carl::Variable x = carl::freshRealVariable("ran");
	return R(upoly<C>(x, v[1]), carl::Interval<C>(rat(v[2]), carl::BoundType::STRICT, rat(v[3]), carl::BoundType::STRICT));
}
inline MR root(const J& v) {
	P p(C(0));
	for (const auto& t : v[1]) {
		P m(rat(t[1]));
		for (std::size_t i = 0; i < t[0].size(); ++i)
			for (long k = 0; k < t[0][i].i; ++k) m *= P(i < vars().size() ? vars()[i] : MR::var());
		p += m;
	}
	return MR(p, std::size_t(v[2].i));
}
inline J root(const MR& r) {
	J l = J::arr();
	for (const auto& t : r.poly()) {
		J e = J::arr();
		std::size_t known = 0, total = t.monomial() ? t.monomial()->tdeg() : 0;
		auto ex = [&](carl::Variable v) { std::size_t k = t.monomial() ? t.monomial()->exponentOfVariable(v) : 0; known += k; return J(long(k)); };
		for (auto v : vars()) e.push(ex(v));
		e.push(ex(MR::var()));
		if (known != total) throw std::logic_error("driver: unknown variable");
		l.push(J::arr({e, out(t.coeff())}));
	}
	return J::arr({J("r"), l, J(long(r.k()))});
}
inline J value(const std::variant<MR, R>& v) { return std::holds_alternative<MR>(v) ? root(std::get<MR>(v)) : num(std::get<R>(v)); }

inline J node(const std::string& t) { return J::obj().set("t", J(t)).set("v", J(0L)).set("p", J::arr()).set("r", J("")).set("a", J::arr()); }
inline J tree(const carl::Constraint<P>& c) { return node("con").set("p", outp(c.lhs())).set("r", J(nameOf(RELS, c.relation()))); }
inline J tree(const VC& c, const char* t = "vc") { return node(t).set("v", J(varIndex(c.var()))).set("p", value(c.value())).set("r", J(nameOf(RELS, c.relation()))).set("neg", J(c.negated())); }
inline J tree(const F& f) {
	switch (f.getType()) {
		case FormulaType::TRUE: case FormulaType::FALSE: return node(nameOf(TYPES, f.getType()));
		case FormulaType::BOOL: return node("bool").set("v", J(indexOf(bools(), f.boolean())));
		case FormulaType::CONSTRAINT: return tree(f.constraint());
		case FormulaType::BITVECTOR: return node("bv").set("r", J(nameOf(BVRELS, f.bvConstraint().relation()))).set("x", bvtree(f.bvConstraint().lhs())).set("y", bvtree(f.bvConstraint().rhs()));
		case FormulaType::UEQ: return node("ueq").set("x", uout(f.uequality().lhs())).set("y", uout(f.uequality().rhs())).set("neg", J(f.uequality().negated()));
		case FormulaType::VARCOMPARE: return tree(f.variableComparison());
		case FormulaType::VARASSIGN: return tree(static_cast<const VC&>(f.variableAssignment()), "va");
		case FormulaType::NOT: return node("not").set("a", J::arr({tree(f.subformula())}));
		case FormulaType::AND: case FormulaType::OR: case FormulaType::XOR: case FormulaType::IFF: case FormulaType::IMPLIES: case FormulaType::ITE: {
			J a = J::arr();
			for (const auto& s : f.subformulas()) a.push(tree(s));
			return node(nameOf(TYPES, f.getType())).set("a", a);
		}
		case FormulaType::EXISTS: case FormulaType::FORALL: {
			J q = J::arr();
			for (auto v : f.quantifiedVariables()) q.push(J(indexOf(bools(), v)));
			return node(f.getType() == FormulaType::EXISTS ? "exists" : "forall").set("q", q).set("a", J::arr({tree(f.quantifiedFormula())}));
		}
		default: return node("other");
	}
}
inline VC comparison(const J& t) {
	carl::Variable v = var(t["v"]);
	VC c = t["p"][0] == "r" ? VC(v, root(t["p"]), rel(t["r"])) : VC(v, ran(t["p"]), rel(t["r"]));
	return t["neg"].b ? c.negation() : c;
}
inline F formula(const J& t) {
	const std::string& k = t["t"].s;
	if (k == "bool") return F(bools().at(std::size_t(t["v"].i - 1)));
	if (k == "con") return F(poly<P>(t["p"]), rel(t["r"]));
	if (k == "bv") return F(carl::BVConstraint::create(byName(BVRELS, t["r"].s), bvterm(t["x"]), bvterm(t["y"])));
	if (k == "ueq") return F(carl::UEquality(uterm(t["x"]), uterm(t["y"]), t["neg"].b));
	if (k == "vc") return F(comparison(t));
	if (k == "va") return F(VA(var(t["v"]), ran(t["p"]), t["neg"].b));
	if (k == "true" || k == "false") return F(byName(TYPES, k));
	carl::Formulas<P> s;
	for (const auto& x : t["a"]) s.push_back(formula(x));
	if (k == "exists" || k == "forall") {
		std::vector<carl::Variable> q;
		for (const auto& v : t["q"]) q.push_back(bools().at(std::size_t(v.i - 1)));
		return F(k == "exists" ? FormulaType::EXISTS : FormulaType::FORALL, std::move(q), s[0]);
	}
	if (k == "not") return F(FormulaType::NOT, s[0]);
	return F(byName(TYPES, k), std::move(s));
}
// Header: nv, types, nb Booleans, vw widths, nu elements of one sort, functions f1: unary, f2: binary.
inline void setup(const J& h) {
	make_vars(h);
	for (long i = 0; i < h["nb"].i; ++i) bools().push_back(carl::freshBooleanVariable("b" + std::to_string(i + 1)));
	auto& sm = carl::SortManager::getInstance();
	if (h["vw"].size() > 0) {
		carl::Sort base = sm.addSort("BitVec", carl::VariableType::VT_UNINTERPRETED);
		sm.makeSortIndexable(base, 1, carl::VariableType::VT_BITVECTOR);
		for (const auto& w : h["vw"]) bvs().emplace_back(carl::freshBitvectorVariable("v" + std::to_string(bvs().size() + 1)), sm.index(base, {std::size_t(w.i)}));
	}
	if (h["nu"].i > 0) {
		usort() = sm.addSort("S", carl::VariableType::VT_UNINTERPRETED);
		for (long i = 0; i < h["nu"].i; ++i) us().emplace_back(carl::freshUninterpretedVariable("u" + std::to_string(i + 1)), usort());
		ufs().push_back(carl::newUninterpretedFunction("f", {usort()}, usort()));
		ufs().push_back(carl::newUninterpretedFunction("g", {usort(), usort()}, usort()));
	}
}
}
