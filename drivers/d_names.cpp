// libs: carl carl-logging
// Variables, sorts and uninterpreted functions (C24).
#include "vj.h"
#include <set>
#include <sstream>
#include <carl/core/VariablePool.h>
#include <carl/core/Variables.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UTerm.h>

using namespace carl;
using VT = VariableType;
static const std::vector<std::pair<std::string, VT>> TYPES = {{"b", VT::VT_BOOL}, {"r", VT::VT_REAL}, {"i", VT::VT_INT}, {"u", VT::VT_UNINTERPRETED}, {"bv", VT::VT_BITVECTOR}};
static VT ty(const std::string& s) { for (auto& p : TYPES) if (p.first == s) return p.second; std::abort(); }
static std::string ty(VT t) { for (auto& p : TYPES) if (p.second == t) return p.first; return "?"; }
static long session = 0;
static std::string kind;
static std::string tag() { return "#" + std::to_string(session); }
static std::string untag(std::string s) { auto t = tag(); if (s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0) s.resize(s.size() - t.size()); return s; }
template<typename X> long ident(std::vector<X>& known, const X& x) { for (std::size_t i = 0; i < known.size(); ++i) if (known[i] == x) return long(i + 1); known.push_back(x); return long(known.size()); }
template<typename X> std::string str(const X& x) { std::stringstream s; s << x; return s.str(); }

// --- variables
struct H { Variable v; bool live, pers; };
static std::vector<H> vars;
static carlVariables vs[4];
static std::vector<variable_type_filter> NOFILTER;
static bool live(long h) { return h >= 1 && h <= (long)vars.size() && vars[h - 1].live; }
static Variable var(const J& h) { need(live(h.i)); return vars[h.i - 1].v; }
static long handle(Variable v) { for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i].live && vars[i].v == v) return long(i + 1); return v == Variable::NO_VARIABLE ? 0 : -1; }
static variable_type_filter filter(const J& f) {
	bool t[5] = {}; for (const auto& x : f) t[int(ty(x.s))] = true;
	auto has = [&](std::initializer_list<int> l) { int n = 0; for (int i : l) if (!t[i]) return false; for (bool b : t) n += b; return n == (int)l.size(); };
	if (has({0, 1, 2, 3, 4})) return variable_type_filter::all();
	if (has({0})) return variable_type_filter::boolean();
	if (has({1})) return variable_type_filter::real();
	if (has({2})) return variable_type_filter::integer();
	if (has({1, 2})) return variable_type_filter::arithmetic();
	if (has({3})) return variable_type_filter::uninterpreted();
	if (has({4})) return variable_type_filter::bitvector();
	if (has({1, 2, 3, 4})) return variable_type_filter::excluding({VT::VT_BOOL});
	if (has({0, 1, 3})) return variable_type_filter::excluding({VT::VT_INT, VT::VT_BITVECTOR});
	if (has({0, 2, 4})) return variable_type_filter::excluding({VT::VT_REAL, VT::VT_UNINTERPRETED});
	if (has({0, 3})) return variable_type_filter::only({VT::VT_BOOL, VT::VT_UNINTERPRETED});
	std::abort();
}
static J handles(const carlVariables& c) { J l = J::arr(); for (auto v : c) l.push(J(handle(v))); return l; }
static J vcmd(const J& c) {
	const std::string& op = c["op"].s;
	auto& pool = VariablePool::getInstance();
	J j = J::obj();
	if (op == "fresh") {
		VT t = ty(c["t"].s); bool p = c["pers"].b; const std::string& n = c["name"].s; std::string name = n + tag();
		Variable v;
		if (p) v = n.empty() ? pool.getFreshPersistentVariable(t) : pool.getFreshPersistentVariable(name, t);
		else if (n.empty()) v = (t == VT::VT_BOOL) ? freshBooleanVariable() : (t == VT::VT_REAL) ? freshRealVariable() : (t == VT::VT_INT) ? freshIntegerVariable() : (t == VT::VT_UNINTERPRETED) ? freshUninterpretedVariable() : freshBitvectorVariable();
		else v = (t == VT::VT_BOOL) ? freshBooleanVariable(name) : (t == VT::VT_REAL) ? freshRealVariable(name) : (t == VT::VT_INT) ? freshIntegerVariable(name) : (t == VT::VT_UNINTERPRETED) ? freshUninterpretedVariable(name) : freshBitvectorVariable(name);
		vars.push_back({v, true, p});
		j.set("t", J(ty(v.type()))); j.set("id", J(long(v.id()))); j.set("rank", J(long(v.rank()))); j.set("nr", J(long(pool.nrVariables(t))));
		return j;
	}
	if (op == "view") {
		Variable v = var(c["h"]);
		j.set("t", J(ty(v.type()))); j.set("id", J(long(v.id()))); j.set("name", J(untag(v.name()))); j.set("text", J(untag(str(v)))); j.set("auto", J(pool.getName(v, false))); j.set("safe", J(v.safe_name()));
		return j;
	}
	if (op == "rename") { Variable v = var(c["h"]); need(!vars[c["h"].i - 1].pers); pool.setName(v, c["name"].s + tag()); return j; }
	if (op == "prefix") { pool.setPrefix(c["p"].s); return j; }
	if (op == "find") return J(handle(pool.findVariableWithName(c["name"].s + tag())));
	if (op == "nr") return J(long(pool.nrVariables(ty(c["t"].s))));
	if (op == "clear") { pool.clear(); for (auto& h : vars) h.live = h.live && h.pers; for (auto& s : vs) s = carlVariables(); return j; }
	if (op == "cmp") {
		Variable a = var(c["h"]), b = var(c["g"]);
		j.set("lt", J(a < b)); j.set("eq", J(a == b)); j.set("gt", J(a > b)); j.set("le", J(a <= b)); j.set("ge", J(a >= b)); j.set("ne", J(a != b)); j.set("hash", J(std::hash<Variable>()(a) == std::hash<Variable>()(b)));
		return j;
	}
	auto& s = vs[c["k"].i];
	std::vector<Variable> l;
	if (c.has("l")) { for (const auto& h : c["l"]) need(live(h.i)); for (const auto& h : c["l"]) l.push_back(var(h)); }
	if (op == "vnew") { s = carlVariables(filter(c["f"])); return j; }
	if (op == "vinit") { s = carlVariables(l.begin(), l.end(), filter(c["f"])); return j; }
	if (op == "vadd") { if (l.size() == 1) s.add(l[0]); else s.add(l.begin(), l.end()); return j; }
	if (op == "verase") { s.erase(l[0]); return j; }
	if (op == "vclear") { s.clear(); return j; }
	if (op == "vcopy") { s = vs[c["j"].i]; return j; }
	if (op == "vhas") return J(s.has(l[0]));
	if (op == "veq") return J(s == vs[c["j"].i]);
	if (op == "vfilter") {
		VT t0 = ty(c["f"][0].s); std::string f; for (const auto& x : c["f"]) f += x.s;
		if (f == "b") return handles(s.boolean());
		if (f == "r") return handles(s.real());
		if (f == "i") return handles(s.integer());
		if (f == "u") return handles(s.uninterpreted());
		if (f == "bv") return handles(s.bitvector());
		if (f == "ri") return handles(s.arithmetic());
		return handles(s.filter(filter(c["f"])));
	}
	if (op == "vlist") {
		bool empty = s.empty(); j.set("empty", J(empty));
		if (c["q"].i == 0) j.set("n", J(long(s.size())));
		J st = J::arr(); for (auto v : s.as_set()) st.push(J(handle(v)));
		j.set("set", st); j.set("l", handles(s)); j.set("sorted", J(std::is_sorted(s.begin(), s.end()) && s.as_vector().size() == s.size()));
		if (c["q"].i != 0) j.set("n", J(long(s.size())));
		return j;
	}
	std::abort();
}

// --- sorts
static std::vector<Sort> sorts;
static std::set<std::string> used;
static std::set<std::string> mapped;
static SortManager& sm() { return SortManager::getInstance(); }
static Sort sort(const J& h) { need(h.i >= 1 && h.i <= (long)sorts.size()); return sorts[h.i - 1]; }
static std::vector<Sort> sortList(const J& l) { std::vector<Sort> r; for (const auto& x : l) r.push_back(sort(x)); return r; }
static J content(const Sort& s) {
	J c = J::obj(), ps = J::arr(), ix = J::arr();
	if (auto p = sm().getParameters(s)) for (auto& x : *p) ps.push(J(ident(sorts, x)));
	if (auto p = sm().getIndices(s)) for (auto x : *p) ix.push(J(long(x)));
	c.set("n", J(sm().getName(s))); c.set("ps", ps); c.set("ix", ix);
	return c;
}
static void parts(const Sort& s, J& out) {
	if (auto p = sm().getParameters(s)) for (auto& x : *p) parts(x, out);
	J j = J::obj(); J c = content(s); j.set("id", J(ident(sorts, s))); j.set("c", c); j.set("t", J(ty(sm().getType(s)))); out.push(j);
}
static J ret(const Sort& s, J j = J::obj()) {
	J p = J::arr(); if (s.id() != 0) parts(s, p);
	j.set("id", J(s.id() == 0 ? 0L : ident(sorts, s))); j.set("parts", p);
	return j;
}
static bool plain(const Sort& s, const std::set<std::string>& n) {
	auto p = sm().getParameters(s); auto i = sm().getIndices(s);
	if (n.count(sm().getName(s)) && ((p && !p->empty()) || (i && !i->empty()))) return false;
	if (p) for (auto& x : *p) if (!plain(x, n)) return false;
	return true;
}
static J scmd(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	std::vector<std::size_t> ix; if (c.has("ix")) for (const auto& x : c["ix"]) ix.push_back(std::size_t(x.i));
	if (op == "declare") {
		bool ok = sm().declare(c["n"].s, std::size_t(c["k"].i)); if (ok) used.insert(c["n"].s);
		j.set("ok", J(ok));
		return ret(ok && c["k"].i == 0 ? sm().getSort(c["n"].s) : Sort(), j);
	}
	if (op == "define") {
		Sort s = sort(c["s"]); std::vector<std::string> ps; std::set<std::string> d; for (const auto& x : c["ps"]) { ps.push_back(x.s); d.insert(x.s); }
		need(d.size() == ps.size() && plain(s, d));
		bool ok = sm().define(c["n"].s, ps, s); if (ok) used.insert(c["n"].s);
		return J(ok);
	}
	if (op == "add" || op == "addi") {
		need(!used.count(c["n"].s)); auto ps = sortList(c["ps"]); VT t = ty(c["t"].s);
		if (op == "addi") { need(!mapped.count(c["t"].s)); mapped.insert(c["t"].s); }
		used.insert(c["n"].s);
		if (op == "add") return ret(ps.empty() ? sm().addSort(c["n"].s, t) : sm().addSort(c["n"].s, ps, t));
		return ret(ps.empty() ? sm().addInterpretedSort(c["n"].s, t) : sm().addInterpretedSort(c["n"].s, ps, t));
	}
	if (op == "interp") { need(mapped.count(c["t"].s)); return J(ident(sorts, sm().getInterpreted(ty(c["t"].s)))); }
	if (op == "indexable") { sm().makeSortIndexable(sort(c["s"]), std::size_t(c["k"].i), ty(c["t"].s)); return j; }
	if (op == "index") return ret(sm().index(sort(c["s"]), ix));
	if (op == "get") {
		auto ps = sortList(c["ps"]);
		if (!ix.empty()) need((ps.empty() ? sm().getSort(c["n"].s) : sm().getSort(c["n"].s, ps)).id() != 0);
		if (ix.empty()) return ret(ps.empty() ? carl::getSort(c["n"].s) : carl::getSort(c["n"].s, ps));
		return ret(ps.empty() ? carl::getSort(c["n"].s, ix) : carl::getSort(c["n"].s, ix, ps));
	}
	if (op == "replace") {
		Sort s = sort(c["s"]); std::map<std::string, Sort> m; std::set<std::string> d; for (const auto& x : c["m"]) { m[x["n"].s] = sort(x["s"]); d.insert(x["n"].s); }
		std::size_t n = 0; for (const auto& x : c["m"]) { (void)x; ++n; }
		need(d.size() == n && plain(s, d));
		return ret(sm().replace(s, m));
	}
	if (op == "view") {
		Sort s = sort(c["s"]); j = content(s);
		j.set("arity", J(long(s.arity()))); j.set("t", J(ty(sm().getType(s)))); j.set("interp", J(sm().isInterpreted(s))); j.set("text", J(str(s)));
		return j;
	}
	if (op == "export") { std::stringstream ss; sm().exportDefinitions(ss); J l = J::arr(); std::string x; while (std::getline(ss, x)) l.push(J(x)); return l; }
	std::abort();
}

// --- uninterpreted functions
static std::vector<UninterpretedFunction> ufs;
static std::vector<UFInstance> ins;
static std::vector<UVariable> uvars;
static bool tok(const J& t) { return t[0].s == "v" ? (t[1].i >= 1 && t[1].i <= 6) : (t[1].i >= 1 && t[1].i <= (long)ins.size()); }
static UTerm term(const J& t) { need(tok(t)); return t[0].s == "v" ? UTerm(uvars[t[1].i - 1]) : UTerm(ins[t[1].i - 1]); }
static J outTerm(const UTerm& t) {
	J j = J::arr();
	if (t.isUVariable()) { long k = 0; for (std::size_t i = 0; i < uvars.size(); ++i) if (uvars[i] == t.asUVariable()) k = long(i + 1); j.push(J("v")); j.push(J(k)); }
	else { j.push(J("i")); j.push(J(ident(ins, t.asUFInstance()))); }
	return j;
}
static J outVars(const carlVariables& c) { J l = J::arr(); for (auto v : c) { long k = 0; for (std::size_t i = 0; i < uvars.size(); ++i) if (uvars[i].variable() == v) k = long(i + 1); l.push(J(k)); } return l; }
static J outUfs(const std::set<UninterpretedFunction>& s) { J l = J::arr(); for (auto& u : s) l.push(J(ident(ufs, u))); return l; }
static J ucmd(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "uf") { auto dom = sortList(c["dom"]); return J(ident(ufs, newUninterpretedFunction(c["n"].s + tag(), dom, sort(c["cod"])))); }
	auto uf = [&]() { need(c["f"].i >= 1 && c["f"].i <= (long)ufs.size()); return ufs[c["f"].i - 1]; };
	if (op == "ufview") {
		auto u = uf(); J d = J::arr(); for (auto& s : u.domain()) d.push(J(ident(sorts, s)));
		j.set("n", J(untag(u.name()))); j.set("dom", d); j.set("cod", J(ident(sorts, u.codomain())));
		return j;
	}
	if (op == "argsok" || op == "inst") {
		auto u = uf(); std::vector<UTerm> a; for (const auto& x : c["a"]) a.push_back(term(x));
		UFInstanceContent con(u, a); bool ok = UFInstanceManager::argsCorrect(con);
		if (op == "argsok") return J(ok);
		need(ok);
		return J(ident(ins, a.size() % 2 ? newUFInstance(u, a) : newUFInstance(u, std::vector<UTerm>(a))));
	}
	if (op == "term") {
		UTerm t = term(c["x"]); carlVariables v; t.gatherVariables(v); std::set<UninterpretedFunction> s; t.gatherUFs(s);
		j.set("sort", J(ident(sorts, t.domain()))); j.set("cx", J(long(t.complexity()))); j.set("vars", outVars(v)); j.set("ufs", outUfs(s)); j.set("isv", J(t.isUVariable())); j.set("isf", J(t.isUFInstance()));
		if (t.isUFInstance()) { J a = J::arr(); for (auto& x : t.asUFInstance().args()) a.push(outTerm(x)); j.set("a", a); j.set("f", J(ident(ufs, t.asUFInstance().uninterpretedFunction()))); str(t); }
		return j;
	}
	if (op == "cmp") {
		UTerm a = term(c["x"]), b = term(c["y"]);
		j.set("lt", J(a < b)); j.set("eq", J(a == b)); j.set("gt", J(b < a)); j.set("ne", J(a != b)); j.set("hash", J(std::hash<UTerm>()(a) == std::hash<UTerm>()(b)));
		return j;
	}
	if (op == "eqn") {
		UTerm x = term(c["x"]), y = term(c["y"]), z = term(c["z"]), w = term(c["w"]);
		need(x.domain() == y.domain() && z.domain() == w.domain());
		UEquality a(x, y, c["n"].b), b(z, w, c["m"].b);
		carlVariables v; a.gatherVariables(v); std::set<UninterpretedFunction> s; a.gatherUFs(s); std::set<UVariable> uv; a.gatherUVariables(uv);
		carlVariables v2; for (auto u : uv) v2.add(u.variable());
		UEquality n = a.negation();
		j.set("neg", J(a.negated())); j.set("l", outTerm(a.lhs())); j.set("r", outTerm(a.rhs())); j.set("eq", J(a == b)); j.set("ne", J(a != b)); j.set("lt", J(a < b)); j.set("gt", J(b < a));
		j.set("hash", J(std::hash<UEquality>()(a) == std::hash<UEquality>()(b))); j.set("cx", J(long(a.complexity()))); j.set("nneg", J(n.negated())); j.set("nsame", J(n.lhs() == a.lhs() && n.rhs() == a.rhs() && n.negation() == a));
		j.set("inv", J(UEquality(a, true).negated() && UEquality(a, false) == a ? true : UEquality(a, true).negated()));
		j.set("vars", outVars(v)); j.set("uvars", outVars(v2)); j.set("ufs", outUfs(s));
		return j;
	}
	std::abort();
}

static void begin(const J& h) {
	++session; kind = h["kind"].s;
	VariablePool::getInstance().clear(); VariablePool::getInstance().setPrefix("_"); vars.clear(); for (auto& s : vs) s = carlVariables();
	sm().clear(); sorts.clear(); used.clear(); mapped.clear(); ufs.clear(); ins.clear(); uvars.clear();
	if (kind == "ufs") {
		for (int i = 1; i <= 3; ++i) sorts.push_back(sm().addSort("S" + std::to_string(i)));
		for (int k = 0; k < 6; ++k) uvars.emplace_back(freshUninterpretedVariable(), sorts[k % 3]);
	}
}
static J cmd(const J& c) { return kind == "vars" ? vcmd(c) : kind == "sorts" ? scmd(c) : ucmd(c); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
