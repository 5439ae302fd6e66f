// libs: carl carl-logging carl-model
// shim
// Text formats (C33).
#include "formio.h"
#include <carl-io/DIMACSExporter.h>
#include <carl-io/DIMACSImporter.h>
#include <carl-io/OPBImporter.h>
#include <carl-io/MapleStream.h>
#include <carl-io/QEPCADStream.h>
#include <carl-io/SMTLIBStream.h>
#include <carl-io/OPBImporter.cpp>
#include <carl-model/Model.h>
#include <carl-model/uninterpreted/SortValueManager.h>
#include <carl/util/parser/Parser.h>
#include <carl/util/stringparser.h>
#include <cstdlib>
#include <fstream>
#include <unistd.h>

using namespace fio;
using MV = carl::ModelValue<C, P>;
using M = carl::Model<C, P>;
static std::vector<carl::SortValue> elems; // elems[0] is the default one
static const carl::SortValue& elem(const J& i) {
	while (elems.size() <= std::size_t(i.i)) elems.push_back(carl::newSortValue(usort()));
	return elems[std::size_t(i.i)];
}
template<typename T> static std::string text(const T& t) { std::ostringstream s; s << t; return s.str(); }

// ---- lexing -----------------------------------------------------------------
static bool isNumeral(const std::string& s) {
	std::size_t dots = 0, digits = 0;
	for (char c : s) { if (c == '.') ++dots; else if (std::isdigit((unsigned char)c)) ++digits; else return false; }
	return digits > 0 && dots <= 1 && s[0] != '.' && s.back() != '.';
}
static std::string numeral(const std::string& s) {
	std::size_t d = s.find('.');
	if (d == std::string::npos) return mpz_class(s, 10).get_str();
	mpq_class q(mpz_class(s.substr(0, d) + s.substr(d + 1), 10), mpz_class("1" + std::string(s.size() - d - 1, '0'), 10));
	q.canonicalize();
	return q.get_str();
}
static J node(const std::string& k, const std::string& s, long i, long w, J a) { return J::obj().set("k", J(k)).set("s", J(s)).set("i", J(i)).set("w", J(w)).set("a", a); }
static std::map<std::string, std::pair<std::string, long>> names;
static J atom(const std::string& s) {
	J none = J::arr();
	auto it = names.find(s);
	if (it != names.end()) return node(it->second.first, s, it->second.second, 0, none);
	if (isNumeral(s)) return node("n", numeral(s), s.size() < 9 ? atol(s.c_str()) : 0, 0, none);
	if (s.size() > 2 && s[0] == '#' && (s[1] == 'b' || s[1] == 'x') && s.find_first_not_of(s[1] == 'b' ? "01" : "0123456789abcdefABCDEF", 2) == std::string::npos)
		return node("bits", mpz_class(s.substr(2), s[1] == 'b' ? 2 : 16).get_str(), 0, long(s.size() - 2) * (s[1] == 'b' ? 1 : 4), none);
	if (s.compare(0, 2, "x!") == 0 && isNumeral(s.substr(2))) return node("p", s, atol(s.c_str() + 2), 0, none);
	for (std::size_t i = 0; i < elems.size(); ++i) if (text(elems[i]) == s) return node("e", s, long(i), 0, none);
	return node("sym", s, 0, 0, none);
}
// The S-expressions of a text; a malformed text ends with a node of kind "bad".
static J sexprs(const std::string& s) {
	std::vector<J> stack(1, J::arr());
	std::size_t i = 0;
	while (i < s.size()) {
		if (std::isspace((unsigned char)s[i])) { ++i; continue; }
		if (s[i] == '(') { stack.push_back(J::arr()); ++i; continue; }
		if (s[i] == ')') {
			++i;
			if (stack.size() == 1) { stack[0].push(node("bad", "", 0, 0, J::arr())); continue; }
			J l = stack.back(); stack.pop_back();
			stack.back().push(node("l", "", 0, 0, l));
			continue;
		}
		std::size_t j = i;
		while (j < s.size() && !std::isspace((unsigned char)s[j]) && s[j] != '(' && s[j] != ')') ++j;
		stack.back().push(atom(s.substr(i, j - i)));
		i = j;
	}
	if (stack.size() > 1) stack[0].push(node("bad", "", 0, 0, J::arr()));
	return stack[0];
}
// The tokens of an infix text: numbers, variables, operators, each as [kind, text, value].
static J tokens(const std::string& s) {
	J l = J::arr();
	std::size_t i = 0;
	auto word = [](char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.'; };
	while (i < s.size()) {
		if (std::isspace((unsigned char)s[i])) { ++i; continue; }
		std::size_t j = i;
		while (j < s.size() && word(s[j])) ++j;
		if (j == i) j = i + 1;
		std::string t = s.substr(i, j - i);
		auto it = names.find(t);
		if (it != names.end()) l.push(J::arr({J("v"), J(t), J(std::to_string(it->second.second))}));
		else if (isNumeral(t)) l.push(J::arr({J("n"), J(t), J(numeral(t))}));
		else l.push(J::arr({J("o"), J(t), J("")}));
		i = j;
	}
	return l;
}
// The same for computer algebra systems: Boolean variables are told apart, relations and connectives are single tokens.
static J cas(const std::string& s) {
	static const std::vector<std::string> ops = {"<==>", "==>", "=>", "<=", ">=", "<>", "/=", "/\\", "\\/"};
	J l = J::arr();
	std::size_t i = 0;
	auto word = [](char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.'; };
	while (i < s.size()) {
		if (std::isspace((unsigned char)s[i])) { ++i; continue; }
		std::size_t j = i;
		while (j < s.size() && word(s[j])) ++j;
		for (const auto& o : ops) if (j == i && s.compare(i, o.size(), o) == 0) j = i + o.size();
		if (j == i) j = i + 1;
		std::string t = s.substr(i, j - i);
		auto it = names.find(t);
		if (it != names.end()) l.push(J::arr({J(it->second.first == "x" ? "v" : it->second.first), J(t), J(std::to_string(it->second.second))}));
		else if (isNumeral(t)) l.push(J::arr({J("n"), J(t), J(numeral(t))}));
		else l.push(J::arr({J("o"), J(t), J("")}));
		i = j;
	}
	return l;
}
template<typename T> static J casText(const std::string& lang, const T& t) {
	if (lang == "maple") { carl::MapleStream m; m << t; return cas(text(m)); }
	carl::QEPCADStream q; q << t; return cas(text(q));
}
// Connectives without a notation are not written.
static bool casHas(const F& f, const std::string& lang) {
	switch (f.getType()) {
		case FormulaType::TRUE: case FormulaType::FALSE: case FormulaType::BOOL: case FormulaType::CONSTRAINT: return true;
		case FormulaType::NOT: return casHas(f.subformula(), lang);
		case FormulaType::XOR: if (lang != "maple") return false; break;
		case FormulaType::IFF: if (f.subformulas().size() != 2) return false; break;
		case FormulaType::AND: case FormulaType::OR: case FormulaType::IMPLIES: break;
		default: return false;
	}
	for (const auto& s : f.subformulas()) if (!casHas(s, lang)) return false;
	return true;
}
// ---- files ------------------------------------------------------------------
struct File {
	std::string name;
	explicit File(const std::string& content) {
		char n[] = "/tmp/d_text_XXXXXX";
		int fd = mkstemp(n);
		if (fd < 0 || write(fd, content.data(), content.size()) != ssize_t(content.size())) throw std::logic_error("driver: file");
		close(fd); name = n;
	}
	~File() { unlink(name.c_str()); }
};
// Formulas over unknown variables: those are numbered by their order.
static void collect(const F& f, std::set<carl::Variable>& vs) {
	carl::carlVariables v;
	f.gatherVariables(v);
	for (auto x : v) vs.insert(x);
}
static J clauses(const F& f, const std::vector<carl::Variable>& vs) {
	auto lit = [&](const F& l) { return l.getType() == FormulaType::NOT ? -indexOf(vs, l.subformula().boolean()) : indexOf(vs, l.boolean()); };
	auto clause = [&](const F& c) {
		J l = J::arr();
		if (c.getType() == FormulaType::FALSE) return l;
		if (c.getType() == FormulaType::OR) { for (const auto& s : c.subformulas()) l.push(J(lit(s))); } else l.push(J(lit(c)));
		return l;
	};
	J r = J::arr();
	if (f.getType() == FormulaType::TRUE) return r;
	if (f.getType() == FormulaType::AND) { for (const auto& s : f.subformulas()) r.push(clause(s)); } else r.push(clause(f));
	return r;
}
static J linear(const P& p, const std::vector<carl::Variable>& vs) {
	J l = J::arr();
	for (const auto& t : p) {
		if (t.monomial() && t.monomial()->tdeg() > 1) throw std::logic_error("driver: not linear");
		l.push(J::arr({J(t.monomial() ? indexOf(vs, t.getSingleVariable()) : 0L), out(t.coeff())}));
	}
	return l;
}

static void begin(const J& h) {
	std::string types = h["types"].s;
	for (long i = 0; i < h["nv"].i; ++i) {
		std::string n = h["names"][std::size_t(i)].s;
		auto ty = types[std::size_t(i)] == 'i' ? carl::VariableType::VT_INT : carl::VariableType::VT_REAL;
		carl::Variable v = carl::freshVariable(n, ty);
		while (!vars().empty() && !(vars().back() < v)) v = carl::freshVariable(n, ty);
		vars().push_back(v); names[n] = {"x", i + 1};
	}
	for (long i = 0; i < h["nb"].i; ++i) { std::string n = h["bnames"][std::size_t(i)].s; bools().push_back(carl::freshBooleanVariable(n)); names[n] = {"b", i + 1}; }
	auto& sm = carl::SortManager::getInstance();
	carl::Sort base = sm.addSort("BitVec", carl::VariableType::VT_UNINTERPRETED);
	sm.makeSortIndexable(base, 1, carl::VariableType::VT_BITVECTOR);
	for (const auto& w : h["vw"]) {
		std::string n = "v" + std::to_string(bvs().size() + 1);
		bvs().emplace_back(carl::freshBitvectorVariable(n), sm.index(base, {std::size_t(w.i)})); names[n] = {"v", long(bvs().size())};
	}
	usort() = sm.addSort("S", carl::VariableType::VT_UNINTERPRETED);
	for (long i = 0; i < h["nu"].i; ++i) { std::string n = "u" + std::to_string(i + 1); us().emplace_back(carl::freshUninterpretedVariable(n), usort()); names[n] = {"u", i + 1}; }
	ufs().push_back(carl::newUninterpretedFunction("f", {usort()}, usort())); names["f"] = {"f", 1};
	ufs().push_back(carl::newUninterpretedFunction("g", {usort(), usort()}, usort())); names["g"] = {"f", 2};
	elems.push_back(carl::defaultSortValue(usort()));
}
static carl::Logic logic(const std::string& s) { return s == "QF_LRA" ? carl::Logic::QF_LRA : s == "QF_NRA" ? carl::Logic::QF_NRA : s == "QF_BV" ? carl::Logic::QF_BV : carl::Logic::QF_UF; }
template<typename... A> static std::string script(const carl::Logic& l, const std::vector<F>& f, A&&... a) {
	switch (f.size()) {
		case 1: return text(carl::outputSMTLIB<P>(l, {f[0]}, a...));
		case 2: return text(carl::outputSMTLIB<P>(l, {f[0], f[1]}, a...));
		default: return text(carl::outputSMTLIB<P>(l, {f[0], f[1], f[2]}, a...));
	}
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "smt") return sexprs(text(carl::asSMTLIB(formula(c["f"]))));
	if (op == "smtp") return sexprs(text(carl::asSMTLIB(poly<P>(c["p"]))));
	if (op == "smtu") { // a univariate polynomial in the first variable
		U u = upoly<C>(vars()[0], c["p"]);
		return sexprs(text(carl::asSMTLIB(u)));
	}
	if (op == "smtq") { C q = rat(c["q"]); return sexprs(text(carl::asSMTLIB(q))); }
	if (op == "casf") { F f = formula(c["f"]); need(casHas(f, c["lang"].s)); return casText(c["lang"].s, f); }
	if (op == "casp") return casText(c["lang"].s, poly<P>(c["p"]));
	if (op == "casu") return casText(c["lang"].s, upoly<C>(vars()[0], c["p"]));
	if (op == "show") return tokens(text(poly<P>(c["p"])));
	if (op == "script") {
		std::vector<F> f;
		for (const auto& t : c["fs"]) f.push_back(formula(t));
		carl::Logic l = logic(c["logic"].s);
		if (c["obj"].size() > 0) return sexprs(script(l, f, poly<P>(c["obj"]), c["getmodel"].b));
		return sexprs(script(l, f, c["getmodel"].b));
	}
	if (op == "model") {
		M m;
		for (const auto& e : c["es"]) {
			const J& k = e[0]; const J& v = e[1];
			std::size_t i = std::size_t(k[1].i) - 1;
			if (k[0] == "x") m.assign(vars().at(i), MV(rat(v[1])));
			else if (k[0] == "b") m.assign(bools().at(i), MV(v[1].b));
			else if (k[0] == "v") m.assign(bvs().at(i), MV(bvio::in(std::size_t(v[1].i), v[2].s)));
			else if (k[0] == "u") m.assign(us().at(i), MV(elem(v[1])));
			else {
				carl::UFModel u(ufs().at(i));
				for (const auto& x : v[1]) { std::vector<carl::SortValue> a; for (const auto& y : x[0]) a.push_back(elem(y)); u.extend(a, elem(x[1])); }
				m.assign(ufs().at(i), MV(u));
			}
		}
		return sexprs(text(carl::asSMTLIB(m)));
	}
	if (op == "ppoly" || op == "prat" || op == "pform") {
		std::string s;
		for (std::size_t i = 0; i < c["toks"].size(); ++i) s += c["toks"][i][1].s + c["seps"][i].s;
		carl::parser::Parser<P> p;
		// Variables the parser is not told about are created by it under their name.
		long known = c["known"].i;
		for (std::size_t i = 0; i < vars().size() && long(i) < known; ++i) p.addVariable(vars()[i]);
		for (std::size_t i = 0; i < bools().size() && long(i) < known; ++i) p.addVariable(bools()[i]);
		if (op == "ppoly") { P q = p.polynomial(s); return J::obj().set("toks", tokens(text(q))).set("nvars", J(long(carl::variables(q).size()))); }
		if (op == "pform") {
			F f = p.formula(s);
			std::set<carl::Variable> vs; collect(f, vs);
			auto save = bools();
			for (auto v : vs) for (std::size_t i = 0; i < save.size(); ++i) if (text(v) == c["bnames"][i].s) bools()[i] = v;
			J t = tree(f);
			bools() = save;
			return t;
		}
		auto q = p.rationalFunction(s);
		return J::obj().set("num", tokens(text(q.nominator()))).set("den", tokens(text(q.denominator())));
	}
	if (op == "spoly") {
		std::string s;
		for (std::size_t i = 0; i < c["toks"].size(); ++i) s += c["toks"][i][1].s + c["seps"][i].s;
		carl::StringParser p;
		std::list<std::string> vs;
		for (auto v : vars()) vs.push_back(text(v));
		p.setVariables(vs);
		P q = p.parseMultivariatePolynomial<C>(s);
		return J::obj().set("toks", tokens(text(q))).set("nvars", J(long(carl::variables(q).size())));
	}
	if (op == "dimacs") {
		carl::DIMACSExporter<P> e;
		J oks = J::arr();
		for (const auto& t : c["fs"]) oks.push(J(e(formula(t))));
		std::istringstream in(text(e));
		std::string line; J l = J::arr();
		long nv = -1, nc = -1;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			if (nv < 0) { std::string p, cnf; ls >> p >> cnf >> nv >> nc; if (p != "p" || cnf != "cnf") nv = -2; continue; }
			J cl = J::arr(); long x;
			while (ls >> x) cl.push(J(x));
			l.push(cl);
		}
		return J::obj().set("oks", oks).set("nv", J(nv)).set("nc", J(nc)).set("cl", l);
	}
	if (op == "rdimacs") {
		File file(c["text"].s);
		std::vector<F> fs;
		carl::DIMACSImporter<P> im(file.name);
		while (im.hasNext() && fs.size() < 10) fs.push_back(im.next());
		std::set<carl::Variable> vs;
		for (const auto& f : fs) collect(f, vs);
		std::vector<carl::Variable> order(vs.begin(), vs.end());
		J l = J::arr();
		for (const auto& f : fs) l.push(clauses(f, order));
		return J::obj().set("n", J(long(order.size()))).set("fs", l);
	}
	if (op == "ropb") {
		File file(c["text"].s);
		carl::OPBImporter<P> im(file.name);
		auto r = im.parse();
		if (!r) return J::obj().set("ok", J(false)).set("n", J(0L)).set("obj", J::arr()).set("cons", J::arr());
		std::set<carl::Variable> vs;
		collect(r->first, vs);
		for (auto v : carl::variables(r->second)) vs.insert(v);
		std::vector<carl::Variable> order(vs.begin(), vs.end());
		J l = J::arr();
		auto con = [&](const F& f) {
			if (f.getType() == FormulaType::FALSE) l.push(J::obj().set("p", J::arr({J::arr({J(0L), J("1")})})).set("r", J("=")));
			else if (f.getType() != FormulaType::TRUE) l.push(J::obj().set("p", linear(f.constraint().lhs(), order)).set("r", J(nameOf(RELS, f.constraint().relation()))));
		};
		if (r->first.getType() == FormulaType::AND) { for (const auto& s : r->first.subformulas()) con(s); } else con(r->first);
		return J::obj().set("ok", J(true)).set("n", J(long(order.size()))).set("obj", linear(r->second, order)).set("cons", l);
	}
	throw std::logic_error("driver: op");
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
