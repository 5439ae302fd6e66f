// libs: carl carl-logging carl-model
// shim
// Models (C29).
#include "formio.h"
#include <carl-model/Model.h>
#include <carl-model/uninterpreted/SortValueManager.h>

using namespace fio;
using MV = carl::ModelValue<C, P>;
using M = carl::Model<C, P>;
using PS = carl::ModelPolynomialSubstitution<C, P>;
using FS = carl::ModelFormulaSubstitution<C, P>;
using RS = carl::ModelMVRootSubstitution<C, P>;
static std::vector<M> ms;
static std::vector<carl::SortValue> elems; // elems[0] is the default one

static const carl::SortValue& elem(const J& i) {
	if (elems.empty()) elems.push_back(carl::defaultSortValue(usort()));
	while (elems.size() <= std::size_t(i.i)) elems.push_back(carl::newSortValue(usort()));
	return elems[std::size_t(i.i)];
}
static carl::ModelVariable key(const J& k) {
	std::size_t i = std::size_t(k[1].i) - 1;
	if (k[0] == "x") return vars().at(i);
	if (k[0] == "b") return bools().at(i);
	if (k[0] == "v") return bvs().at(i);
	if (k[0] == "u") return us().at(i);
	return ufs().at(i);
}
static J key(const carl::ModelVariable& k) {
	if (k.isBVVariable()) return J::arr({J("v"), J(indexOf(bvs(), k.asBVVariable()))});
	if (k.isUVariable()) return J::arr({J("u"), J(indexOf(us(), k.asUVariable()))});
	if (k.isFunction()) return J::arr({J("f"), J(indexOf(ufs(), k.asFunction()))});
	long b = indexOf(bools(), k.asVariable());
	return b > 0 ? J::arr({J("b"), J(b)}) : J::arr({J("x"), J(varIndex(k.asVariable()))});
}
static MV val(const J& v, const J& k) {
	const std::string& t = v[0].s;
	if (t == "q") return MV(rat(v[1]));
	if (t == "a") return MV(ran(v));
	if (t == "p") return carl::createSubstitution<C, P, PS>(poly<P>(v[1]));
	if (t == "r") return carl::createSubstitution<C, P>(root(v));
	if (t == "b") return MV(v[1].b);
	if (t == "F") return carl::createSubstitution<C, P, FS>(formula(v[1]));
	if (t == "v") return MV(bvio::in(std::size_t(v[1].i), v[2].s));
	if (t == "s") return MV(elem(v[1]));
	carl::UFModel u(ufs().at(std::size_t(k[1].i) - 1));
	for (const auto& e : v[1]) { std::vector<carl::SortValue> a; for (const auto& x : e[0]) a.push_back(elem(x)); u.extend(a, elem(e[1])); }
	return MV(u);
}
static long elemId(const carl::SortValue& s) { return long(s.id()); }
// Root expressions do not mention the first variable; linear ones come as equations for it.
static J outr(RS& r) {
	F f = r.representingFormula(vars()[0]);
	if (f.getType() == FormulaType::VARCOMPARE) return value(f.variableComparison().value());
	if (f.getType() != FormulaType::CONSTRAINT) return J::arr({J("?")});
	return root(MR(carl::substitute(f.constraint().lhs(), vars()[0], P(MR::var())), 1));
}
static J outv(const MV& v) {
	if (v.isBool()) return J::arr({J("b"), J(v.asBool())});
	if (v.isRational()) return J::arr({J("q"), out(v.asRational())});
	if (v.isRAN()) return num(v.asRAN());
	if (v.isBVValue()) return J::arr({J("v"), J(long(v.asBVValue().width())), bvio::out(v.asBVValue())["n"]});
	if (v.isSortValue()) return J::arr({J("s"), J(elemId(v.asSortValue()))});
	if (v.isUFModel()) {
		J l = J::arr();
		for (const auto& [a, r] : v.asUFModel().values()) { J x = J::arr(); for (const auto& s : a) x.push(J(elemId(s))); l.push(J::arr({x, J(elemId(r))})); }
		return J::arr({J("f"), l});
	}
	if (v.isSubstitution()) {
		auto* s = v.asSubstitution().get();
		if (auto* p = dynamic_cast<PS*>(s)) return J::arr({J("p"), outp(p->getPoly())});
		if (auto* f = dynamic_cast<FS*>(s)) return J::arr({J("F"), tree(f->getFormula())});
		if (auto* r = dynamic_cast<RS*>(s)) return outr(*r);
	}
	return J::arr({J("?")});
}
static J dump(const M& m) {
	J l = J::arr();
	for (const auto& [k, v] : m) l.push(J::arr({key(k), outv(v)}));
	return l;
}
static std::vector<J> allKeys() {
	std::vector<J> l;
	auto add = [&](const char* k, std::size_t n) { for (std::size_t i = 1; i <= n; ++i) l.push_back(J::arr({J(k), J(long(i))})); };
	add("x", vars().size()); add("b", bools().size()); add("v", bvs().size()); add("u", us().size()); add("f", ufs().size());
	return l;
}
static void begin(const J& h) { setup(h); ms.resize(3); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	M& m = ms.at(std::size_t(c["m"].i) - 1);
	if (op == "set") {
		auto k = key(c["k"]);
		MV v = val(c["v"], c["k"]);
		const std::string& w = c["way"].s;
		if (w == "from") { m = M(std::map<carl::Variable, C>{{k.asVariable(), v.asRational()}}); return J(true); }
		if (w == "assign") { m.assign(k, v); return J(true); }
		if (w == "insert") return J(m.insert(std::make_pair(k, v)).second);
		std::size_t n = m.size();
		if (w == "hint") { m.emplace_hint(m.find(k), k, v); return J(m.size() > n); }
		return J(m.emplace(k, v).second);
	}
	if (op == "erase") { m.erase(key(c["k"])); return J("done"); }
	if (op == "clear") { m.clear(); return J("done"); }
	if (op == "copy") { const M& n = ms.at(std::size_t(c["n"].i) - 1); if (c["way"].b) m = n; else { M t(n); m = std::move(t); } return J("done"); }
	if (op == "update") {
		const M& n = ms.at(std::size_t(c["n"].i) - 1);
		if (c["dis"].b) for (const auto& e : n) need(m.find(e.first) == m.end());
		m.update(n, c["dis"].b);
		return J("done");
	}
	if (op == "clean") { m.clean(); return dump(m); }
	if (op == "look") {
		J f = J::arr();
		for (const auto& k : allKeys()) if (m.find(key(k)) != m.end()) f.push(k);
		std::vector<carl::ModelVariable> ks;
		for (const auto& k : c["ks"]) ks.push_back(key(k));
		return J::obj().set("dump", dump(m)).set("size", J(long(m.size()))).set("empty", J(m.empty())).set("found", f).set("all", J(m.contains(ks)));
	}
	if (op == "ev") {
		F f = formula(c["t"]);
		MV r = carl::model::evaluate(f, m);
		J t = r.isBool() ? node(r.asBool() ? "true" : "false") : outv(r)[1];
		return J::obj().set("tree", t).set("sat", J(long(carl::model::satisfiedBy(f, m))));
	}
	if (op == "sub") return tree(carl::model::substitute(formula(c["t"]), m));
	if (op == "evp") return outv(carl::model::evaluate(poly<P>(c["p"]), m));
	if (op == "subp") return outp(carl::model::substitute(poly<P>(c["p"]), m));
	if (op == "subt") return bvtree(carl::model::substitute(bvterm(c["t"]), m));
	if (op == "evt") {
		BVTerm t = bvterm(c["t"]);
		for (const auto& i : c["vs"]) need(m.find(bvs().at(std::size_t(i.i) - 1)) != m.end());
		return outv(carl::model::evaluate(t, m));
	}
	if (op == "evu") {
		carl::UTerm t = uterm(c["t"]);
		std::set<carl::UninterpretedFunction> fs; t.gatherUFs(fs);
		for (const auto& f : fs) need(m.find(f) != m.end());
		carl::carlVariables vs; t.gatherVariables(vs);
		for (const auto& u : us()) if (vs.has(u.variable())) need(m.find(u) != m.end());
		MV r;
		if (t.isUVariable()) carl::model::evaluate(r, t.asUVariable(), m); else carl::model::evaluate(r, t.asUFInstance(), m);
		return outv(r);
	}
	if (op == "evr") return outv(carl::model::evaluate(root(J::arr({J("r"), c["p"], c["n"]})), m));
	if (op == "meta") {
		VC v = comparison(c["t"]);
		auto con = v.asConstraint();
		carl::carlVariables vs; v.gatherVariables(vs);
		J l = J::arr();
		for (auto x : vs) l.push(key(carl::ModelVariable(x)));
		return J::obj().set("con", con ? tree(F(*con)) : node("none")).set("neg", tree(v.negation())).set("inv", tree(v.invertRelation())).set("def", outp(v.definingPolynomial())).set("vars", l).set("eq", J(v.isEquality()));
	}
	auto it = m.find(key(c["k"]));
	need(it != m.end());
	if (op == "evald") return outv(m.evaluated(key(c["k"])));
	if (op == "extend") {
		auto& u = it->second.asUFModel();
		std::vector<carl::SortValue> a;
		for (const auto& x : c["a"]) a.push_back(elem(x));
		auto f = u.values().find(a);
		need(f == u.values().end() || f->second == elem(c["v"]));
		u.extend(a, elem(c["v"]));
		return J("done");
	}
	need(it->second.isSubstitution());
	auto& s = it->second.asSubstitution();
	if (op == "scale") { s->multiplyBy(rat(c["c"])); return J("done"); }
	if (op == "shift") { s->add(rat(c["c"])); return J("done"); }
	if (op == "repr") {
		J l = J::arr();
		for (const auto& k : allKeys()) if ((k[0] == "x" || k[0] == "b") && s->dependsOn(key(k))) l.push(k);
		return J::obj().set("tree", tree(s->representingFormula(key(c["k"])))).set("deps", l);
	}
	throw std::logic_error("driver: op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
