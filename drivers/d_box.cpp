// libs: carl carl-logging
// Interval evaluation and contraction (C14).
#include "polyio.h"
#include <carl/core/MultivariateHorner.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/interval/Interval.h>
#include <carl/interval/IntervalEvaluation.h>
#include <carl/interval/Contraction.h>
#include <carl/interval/Contractor.h>
#include <carl/interval/evaluate.h>
#include <cmath>

using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using carl::BoundType;
using carl::Interval;
template<typename N> using Box = std::map<carl::Variable, Interval<N>>;
static BoundType ty(const J& j) { return j == "S" ? BoundType::STRICT : j == "W" ? BoundType::WEAK : BoundType::INFTY; }
static J ty(BoundType t) { return J(t == BoundType::STRICT ? "S" : t == BoundType::WEAK ? "W" : "I"); }
static J out(const Interval<Q>& i) { J o = J::arr(); o.push(pio::out(i.lower())); o.push(ty(i.lowerBoundType())); o.push(pio::out(i.upper())); o.push(ty(i.upperBoundType())); return o; }
static J out(const Interval<double>& i) {
	bool li = i.lowerBoundType() == BoundType::INFTY || std::isinf(i.lower()), ui = i.upperBoundType() == BoundType::INFTY || std::isinf(i.upper());
	J o = J::arr();
	o.push(li ? J("0") : pio::out(Q(i.lower()))); o.push(li ? J("I") : ty(i.lowerBoundType()));
	o.push(ui ? J("0") : pio::out(Q(i.upper()))); o.push(ui ? J("I") : ty(i.upperBoundType()));
	return o;
}
template<typename N> static N end(const J& j) {
	Q x = pio::num<Q>(j);
	if constexpr (std::is_same<N, double>::value) { double d = x.get_d(); if (Q(d) != x) throw std::runtime_error("not a double"); return d; }
	else return x;
}
template<typename N> static Interval<N> ivl(const J& x) { return Interval<N>(end<N>(x[0]), ty(x[1]), end<N>(x[2]), ty(x[3])); }
static int nv;
template<typename N> static Box<N> box(const J& b) { Box<N> m; for (int i = 0; i < nv; i++) m.emplace(pio::var(i + 1), ivl<N>(b[i])); return m; }
template<typename N> static J outl(const std::vector<Interval<N>>& l) { J o = J::arr(); for (const auto& i : l) o.push(out(i)); return o; }

template<typename N> static J eval(const J& c) {
	Box<N> b = box<N>(c["box"]);
	const std::string& k = c["kind"].s;
	P p = pio::poly<P>(c["p"]);
	if (k == "mono") return out(carl::IntervalEvaluation::evaluate(*p.lmon(), b));
	if (k == "term") return out(carl::IntervalEvaluation::evaluate(p.lterm(), b));
	if (k == "up") return out(carl::IntervalEvaluation::evaluate<N>(carl::to_univariate_polynomial(p, pio::var(c["v"].i)), b));
	if (k == "horner") { carl::MultivariateHorner<P, carl::strategy> h((P(p))); return out(carl::IntervalEvaluation::evaluate(h, b)); }
	return out(carl::IntervalEvaluation::evaluate(p, b));
}
static carl::Relation rel(const J& j) { using R = carl::Relation; return j == "eq" ? R::EQ : j == "lt" ? R::LESS : j == "le" ? R::LEQ : j == "gt" ? R::GREATER : j == "ne" ? R::NEQ : R::GEQ; }
template<typename N> static J decide(const J& c) {
	boost::tribool b = carl::evaluate(ivl<N>(c["i"]), rel(c["rel"]));
	return J(boost::indeterminate(b) ? "?" : b ? "yes" : "no");
}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "eval") return c["num"] == "q" ? eval<Q>(c) : eval<double>(c);
	if (op == "decide") return c["num"] == "q" ? decide<Q>(c) : decide<double>(c);
	P p = op == "normalize" ? P() : pio::poly<P>(c["p"]);
	if (op == "normalize") {
		carl::contractor::Evaluation<P> e(P(pio::var(1)), pio::var(1));
		std::vector<Interval<double>> l;
		for (const J& x : c["l"]) l.push_back(ivl<double>(x));
		e.normalize(l);
		return outl(l);
	}
	if (op == "contract") {
		const std::string& h = c["how"].s;
		carl::Variable v = pio::var(c["v"].i);
		Box<double> b = box<double>(c["box"]);
		if (h == "con" || h == "eval") {
			carl::Constraint<P> con(p, rel(c["rel"]));
			if (!con.lhs().has(v)) return outl<double>({b.at(v)}); // simplified to a trivial one
			carl::contractor::Contractor<int, P> k(1, con, v);
			return outl(h == "con" ? k.contract(b) : k.evaluate(b));
		}
		if (h == "evaluation") return outl(carl::contractor::Evaluation<P>(p, v).evaluate(b));
		std::vector<Interval<double>> l;
		auto run = [&](auto& k, bool prop) {
			Interval<double> x = Interval<double>::emptyInterval(), y = Interval<double>::emptyInterval();
			bool two = k(b, v, x, y, c["nice"].b, prop);
			l.push_back(x); if (two) l.push_back(y);
		};
		if (h == "newton2") { carl::Contraction<carl::SimpleNewton, P> k(p, p); run(k, c["prop"].b); }
		else { carl::Contraction<carl::SimpleNewton, P> k(p); run(k, c["prop"].b); }
		return outl(l);
	}
	throw std::runtime_error("unknown op " + op);
}
static void begin(const J& h) { nv = int(h["nv"].i); pio::make_vars(h); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
