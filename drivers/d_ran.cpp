// libs: carl carl-logging
// shim
// Real algebraic numbers (C28): objects h1, h2, ...; every result lists the objects whose representation changed.
#include "polyio.h"
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/formula/Constraint.h>
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>
#include <carl/ran/interval/ran_interval_extra.h>

using namespace pio;
using Q = mpq_class;
using U = carl::UnivariatePolynomial<Q>;
using P = carl::MultivariatePolynomial<Q>;
using R = carl::real_algebraic_number_interval<Q>;
using carl::Interval;
using carl::BoundType;
using carl::Relation;
static Variable x;
static std::vector<R> hs;
static std::vector<std::string> last;

static BoundType bt(const J& j) { return j == "S" ? BoundType::STRICT : j == "W" ? BoundType::WEAK : BoundType::INFTY; }
static J ty(BoundType t) { return J(t == BoundType::STRICT ? "S" : t == BoundType::WEAK ? "W" : "I"); }
static Interval<Q> ivl(const J& v) { return Interval<Q>(rat(v[0]), bt(v[1]), rat(v[2]), bt(v[3])); }
static Relation rel(const J& j) { return j == "eq" ? Relation::EQ : j == "ne" ? Relation::NEQ : j == "lt" ? Relation::LESS : j == "le" ? Relation::LEQ : j == "gt" ? Relation::GREATER : Relation::GEQ; }
static J wire(const R& r) {
	if (r.is_numeric()) return J::arr({J("n"), out(r.value())});
	const auto& i = r.interval();
	return J::arr({J("i"), outu(r.polynomial()), out(i.lower()), out(i.upper()), ty(i.lowerBoundType()), ty(i.upperBoundType())});
}
// An object of its own for the same number.
static R fresh(const R& r) { return r.is_numeric() ? R(r.value()) : R(r.polynomial(), r.interval()); }
static J push(const R& r) { hs.push_back(r); return J(long(hs.size())); }
static void begin(const J& h) { make_vars(h); x = vars()[0]; }
static R& H(const J& i) { need(i.i >= 1 && std::size_t(i.i) <= hs.size()); return hs[std::size_t(i.i) - 1]; }
static carl::ran::ran_assignment_t<R> ass(const J& a) {
	carl::ran::ran_assignment_t<R> m;
	for (std::size_t i = 0; i < a.size(); i++) if (a[i].i != 0) m.emplace(vars()[i], H(a[i]));
	return m;
}
// Larger products of degrees take too long to eliminate.
static void affordable(const carl::ran::ran_assignment_t<R>& m) {
	std::size_t d = 1;
	for (const auto& [v, r] : m) if (!r.is_numeric()) d *= r.polynomial().degree();
	need(d <= 40);
}
static long sg(carl::Sign s) { return s == carl::Sign::ZERO ? 0 : s == carl::Sign::POSITIVE ? 1 : -1; }
static J roots(const carl::ran::real_roots_result<R>& r) {
	if (r.is_nullified()) return J("null");
	if (r.is_non_univariate()) return J("nonuni");
	J o = J::arr();
	for (const auto& n : r.roots()) o.push(push(n));
	return o;
}
template<typename A, typename B> static bool op6(const A& a, const B& b, const std::string& k) {
	return k == "eq" ? a == b : k == "ne" ? a != b : k == "lt" ? a < b : k == "le" ? a <= b : k == "gt" ? a > b : a >= b;
}
static J act(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "roots") {
		U p = upoly<Q>(x, c["p"]);
		if (c["kind"] == "mp") {
			std::vector<P> cs;
			for (const auto& q : p.coefficients()) cs.emplace_back(q);
			return roots(carl::real_roots(carl::UnivariatePolynomial<P>(x, cs), ivl(c["iv"])));
		}
		if (c["iv"][1] == "I" && c["iv"][3] == "I") return roots(carl::real_roots(p));
		return roots(carl::real_roots(p, ivl(c["iv"])));
	}
	if (op == "rootsat") {
		auto m = ass(c["a"]);
		for (const auto& e : m) need(e.second.is_numeric());
		P p = poly<P>(c["m"]);
		auto up = carl::to_univariate_polynomial(p, var(c["v"]));
		if (c["van"].b) return J(carl::ran::interval::vanishes(up, m));
		return roots(carl::real_roots(up, m, ivl(c["iv"])));
	}
	if (op == "num") return push(R(rat(c["c"])));
	if (op == "zero") return push(R());
	if (op == "mk") {
		U p = upoly<Q>(x, c["p"]);
		Q a = rat(c["l"]), b = rat(c["u"]);
		need(!carl::isZero(p) && p.degree() > 0 && a < b && carl::evaluate(p, a) != 0 && carl::evaluate(p, b) != 0);
		U s = carl::squareFreePart(p);
		Interval<Q> i(a, BoundType::STRICT, b, BoundType::STRICT);
		need(carl::count_real_roots(s, i) == 1);
		if (c["safe"].b) return push(R::create_safe(p, i));
		need(s.degree() == p.degree());
		return push(R(p, i));
	}
	if (op == "copy") return push(H(c["i"]));
	if (op == "set") { H(c["i"]); H(c["j"]); H(c["i"]) = H(c["j"]); return J("ok"); }
	if (op == "refine") { H(c["i"]).refine(); return J("ok"); }
	if (op == "cmp") return J(op6(H(c["i"]), H(c["j"]), c["rel"].s));
	if (op == "compare") return J(carl::compare(H(c["i"]), H(c["j"]), rel(c["rel"])));
	if (op == "cmpn") { Q q = rat(c["c"]); return J(c["flip"].b ? op6(q, H(c["i"]), c["rel"].s) : op6(H(c["i"]), q, c["rel"].s)); }
	if (op == "sgn") return J(sg(H(c["i"]).sgn()));
	if (op == "sgnp") return J(sg(H(c["i"]).sgn(upoly<Q>(x, c["p"]))));
	if (op == "isroot") return J(carl::is_root_of(upoly<Q>(x, c["p"]), H(c["i"])) == 1);
	if (op == "query") {
		const R& r = H(c["i"]);
		J o = J::obj();
		return o.set("zero", J(r.is_zero())).set("int", J(carl::isInteger(r))).set("below", out(r.integer_below())).set("floor", out(carl::floor(r))).set("ceil", out(carl::ceil(r)))
			.set("above", out(carl::sample_above(r))).set("under", out(carl::sample_below(r))).set("branch", out(carl::branching_point(r)))
			.set("hash", J(std::to_string(std::hash<R>()(r)))).set("size", J(r.size() > 0));
	}
	if (op == "abs") return push(carl::abs(H(c["i"])));
	if (op == "between") { R &a = H(c["i"]), &b = H(c["j"]); need(fresh(a) < fresh(b)); return out(carl::sample_between(a, b)); }
	if (op == "betweenn") {
		R& a = H(c["i"]); Q q = rat(c["c"]);
		if (c["flip"].b) { need(fresh(a) > q); return out(carl::sample_between(q, a)); }
		need(fresh(a) < q);
		return out(carl::sample_between(a, q));
	}
	if (op == "inside") return J(H(c["i"]).contained_in(ivl(c["iv"])));
	if (op == "eval") {
		P p = poly<P>(c["m"]);
		auto m = ass(c["a"]);
		for (const auto& v : carl::variables(p)) need(m.count(v) > 0);
		affordable(m);
		if (c["kind"] == "evaluator" || c["kind"] == "stepwise") {
			carl::ran::interval::ran_evaluator<Q> ev(p);
			if (c["kind"] == "evaluator") ev.assign(m, c["refine"].b);
			else for (std::size_t i = 0; i < c["a"].size(); i++) if (c["a"][i].i != 0 && !ev.has_value()) ev.assign(vars()[i], H(c["a"][i]), c["refine"].b);
			if (!ev.has_value()) return J("none");
			return push(ev.value());
		}
		auto r = carl::evaluate(p, m, c["refine"].b);
		if (!r) return J("none");
		return push(*r);
	}
	if (op == "con") {
		P p = poly<P>(c["m"]);
		auto m = ass(c["a"]);
		for (const auto& v : carl::variables(p)) need(m.count(v) > 0);
		affordable(m);
		auto r = carl::evaluate(carl::Constraint<P>(p, rel(c["rel"])), m, c["refine"].b, c["bounds"].b);
		if (boost::logic::indeterminate(r)) return J("indet");
		return J(bool(r));
	}
	if (op == "nums") {
		Q a = rat(c["c"]), b = rat(c["d"]);
		J o = J::obj();
		o.set("above", out(carl::sample_above(a))).set("under", out(carl::sample_below(a))).set("branch", out(carl::branching_point(a)));
		if (a < b) o.set("between", out(carl::sample_between(a, b)));
		return o;
	}
	throw std::logic_error("driver: unknown op " + op);
}
static J cmd(const J& c) {
	J r = act(c), d = J::arr();
	for (std::size_t i = 0; i < hs.size(); i++) {
		J w = wire(hs[i]);
		std::string s = w.str();
		if (i < last.size() && last[i] == s) continue;
		if (i < last.size()) last[i] = s; else last.push_back(s);
		d.push(J::arr({J(long(i + 1)), w}));
	}
	return J::obj().set("v", r).set("d", d);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
