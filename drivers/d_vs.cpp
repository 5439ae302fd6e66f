// libs: carl carl-logging
// shim
// Square root expressions and virtual substitution (C26).
#include "formio.h"
#include <carl/ran/real_roots.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/interval/Interval.h>
#include <carl/vs/SqrtEx.h>
// The rules are written in terms of names of the solver that uses them.
namespace smtrat {
using Rational = fio::C;
using Poly = fio::P;
using Factorization = carl::Factors<Poly>;
using SqrtEx = carl::SqrtEx<Poly>;
}
#include <carl/vs/substitute.h>
#include <map>

using namespace fio;
using S = carl::SqrtEx<P>;
using T = carl::vs::Term<P>;
using Con = carl::Constraint<P>;
static std::map<long, S> ss;
static J outs(const S& s) {
	return J::obj().set("c", outp(s.constantPart())).set("f", outp(s.factor())).set("d", outp(s.denominator())).set("r", outp(s.radicand()));
}
static const S& h(const J& j) { auto it = ss.find(j.i); if (it == ss.end()) throw std::logic_error("driver: handle"); return it->second; }
static J made(const J& c, const S& s) {
	J j = outs(s);
	ss.erase(c["to"].i); ss.emplace(c["to"].i, s);
	return j;
}
static bool usable(const P& p) { return !p.isConstant() || carl::isZero(p) || p.constantPart() >= 0; }
template<typename L> static J conj(const L& l) { J a = J::arr(); for (const auto& x : l) a.push(tree(x)); return a; }
static J cases(const carl::vs::CaseDistinction<P>& r) { J a = J::arr(); for (const auto& k : r) a.push(conj(k)); return a; }
static J zeros(const std::vector<carl::vs::zero<P>>& zs) {
	J a = J::arr();
	for (const auto& z : zs) a.push(J::obj().set("x", outs(z.sqrt_ex)).set("cond", conj(z.side_condition)));
	return a;
}
static T term(const J& c) {
	const std::string& k = c["k"].s;
	if (k == "minf") return T::minus_infty();
	if (k == "pinf") return T::plus_infty();
	return k == "eps" ? T::plus_eps(h(c["x"])) : T::normal(h(c["x"]));
}
static bool about(const J& c, carl::Variable v) { return !(c["k"] == "minf") && !(c["k"] == "pinf") && carl::variables(h(c["x"])).has(v); }
static void begin(const J& hd) { vars().clear(); ss.clear(); make_vars(hd); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "sq") {
		P d = poly<P>(c["d"]), r = poly<P>(c["q"]);
		need(!carl::isZero(d) && usable(r));
		return made(c, S(poly<P>(c["c"]), poly<P>(c["f"]), d, r));
	}
	if (op == "sqp") { P p = poly<P>(c["p"]); if (c["way"].b) return made(c, S(p)); S s; s = p; return made(c, s); }
	if (op == "sqop") {
		const S& x = h(c["x"]); const S& y = h(c["y"]);
		if (c["o"] == "/") { need(!y.hasSqrt() && !carl::isZero(y.constantPart())); return made(c, x / y); }
		need(!x.hasSqrt() || !y.hasSqrt() || x.radicand() == y.radicand());
		return made(c, c["o"] == "+" ? x + y : c["o"] == "-" ? x - y : x * y);
	}
	if (op == "sqin") return made(c, S::subBySqrtEx(poly<P>(c["p"]), var(c["v"]), h(c["x"])));
	if (op == "sqsub" || op == "sqeval") {
		const S& x = h(c["x"]);
		std::map<carl::Variable, C> m;
		for (const auto& e : c["m"]) m.emplace(var(e[0]), rat(e[1]));
		P d = carl::substitute(x.denominator(), m), r = carl::substitute(x.radicand(), m);
		need(!carl::isZero(d) && usable(r));
		if (op == "sqsub") return made(c, x.substitute(m));
		C root, f = carl::substitute(x.factor(), m).constantPart();
		need(c["n"].i != 0 || f == 0 || carl::sqrt_exact(C(r.constantPart()), root));
		C v; bool e = x.evaluate(v, m, int(c["n"].i));
		return J::arr({J(e), out(v)});
	}
	if (op == "sqeq") { const S& x = h(c["x"]); const S& y = h(c["y"]); bool b = x == y; return J(b && std::hash<S>()(x) != std::hash<S>()(y) ? 2L : b ? 1L : 0L); }
	if (op == "sqinfo") {
		const S& x = h(c["x"]);
		J j = J::obj().set("root", J(x.hasSqrt())).set("poly", J(x.isPolynomial())).set("const", J(x.isConstant())).set("rat", J(x.isRational())).set("int", J(x.isInteger()));
		j.set("aspoly", x.isPolynomial() ? outp(x.asPolynomial()) : J::arr());
		j.set("asrat", J(x.isRational() ? out(x.asRational()).s : std::string("")));
		J vs = J::arr(); for (auto v : carl::variables(x)) vs.push(J(varIndex(v)));
		return j.set("vars", vs);
	}
	if (op == "zeros") {
		std::vector<carl::vs::zero<P>> zs;
		Con k(poly<P>(c["p"]), rel(c["rel"]));
		bool ok = carl::vs::gather_zeros(k, var(c["v"]), zs);
		return J::obj().set("dec", J(k.variables().empty() ? long(k.isConsistent()) : 2L)).set("ok", J(ok)).set("l", zeros(zs));
	}
	if (op == "vzeros") {
		std::vector<carl::vs::zero<P>> zs;
		bool ok = carl::vs::gather_zeros(comparison(c["t"]), var(c["v"]), zs);
		return J::obj().set("ok", J(ok)).set("l", zeros(zs));
	}
	if (op == "subst") {
		Con k(poly<P>(c["p"]), rel(c["rel"]));
		carl::Variable v = var(c["v"]);
		need(!about(c, v));
		J res = J::obj().set("dec", J(k.variables().empty() ? long(k.isConsistent()) : 2L));
		if (k.variables().empty()) return res;
		if (!c["paper"].b && c["box"].size() == 0) {
			auto r = carl::vs::substitute(k, v, term(c));
			return res.set("ok", J(bool(r))).set("l", r ? cases(*r) : J::arr());
		}
		carl::vs::CaseDistinction<P> r; carl::Variables conflict; carl::vs::detail::EvalDoubleIntervalMap box;
		for (const auto& b : c["box"]) box[var(b[0])] = carl::Interval<double>(double(b[1].i), carl::BoundType::WEAK, double(b[2].i), carl::BoundType::WEAK);
		T t = term(c);
		bool ok = carl::vs::detail::substitute(k, carl::vs::detail::Substitution<P>(v, t), r, c["paper"].b, conflict, box);
		return res.set("ok", J(ok)).set("l", ok ? cases(r) : J::arr());
	}
	if (op == "vsubst") {
		carl::Variable v = var(c["v"]);
		need(!about(c, v));
		auto r = carl::vs::substitute(comparison(c["t"]), v, term(c));
		J l = J::arr();
		if (r && std::holds_alternative<VC>(*r)) { J k = J::arr(); k.push(tree(std::get<VC>(*r))); l.push(k); }
		else if (r) l = cases(std::get<0>(*r));
		return J::obj().set("ok", J(bool(r))).set("l", l);
	}
	if (op == "elim") {
		// Test candidates of all constraints: minus infinity, every zero, right after every zero.
		carl::Variable v = var(c["v"]);
		std::vector<Con> cs; std::vector<carl::vs::zero<P>> zs; std::vector<std::pair<T, carl::Constraints<P>>> ts;
		J fail = J::obj().set("ok", J(false)).set("l", J::arr());
		for (const auto& k : c["cs"]) {
			cs.emplace_back(poly<P>(k[0]), rel(k[1]));
			if (!carl::vs::gather_zeros(cs.back(), v, zs)) return fail;
		}
		ts.emplace_back(T::minus_infty(), carl::Constraints<P>());
		for (const auto& z : zs) { ts.emplace_back(T::normal(z.sqrt_ex), z.side_condition); ts.emplace_back(T::plus_eps(z.sqrt_ex), z.side_condition); }
		J l = J::arr();
		for (const auto& t : ts) {
			J each = J::arr();
			for (const auto& k : cs) {
				if (k.variables().empty()) { each.push(k.isConsistent() == 1 ? J::arr({J::arr()}) : J::arr()); continue; }
				auto r = carl::vs::substitute(k, v, t.first);
				if (!r) return fail;
				each.push(cases(*r));
			}
			l.push(J::obj().set("cond", conj(t.second)).set("each", each));
		}
		return J::obj().set("ok", J(true)).set("l", l);
	}
	throw std::logic_error("driver: op " + op);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
