// libs: carl carl-logging
// Intervals with rational bounds (C12, C13).
#include "polyio.h"
#include <carl/interval/Interval.h>
#include <carl/interval/evaluate.h>
#include <carl/interval/power.h>
#include <carl/interval/sampling.h>
#include <carl/interval/set_theory.h>
#include <memory>

using N = mpq_class;
using I = carl::Interval<N>;
using carl::BoundType;
static BoundType ty(const J& j) { return j == "S" ? BoundType::STRICT : j == "W" ? BoundType::WEAK : BoundType::INFTY; }
static J ty(BoundType t) { return J(t == BoundType::STRICT ? "S" : t == BoundType::WEAK ? "W" : "I"); }
static N q(const J& j) { return pio::num<N>(j); }
static J out(const N& n) { return pio::out(n); }
static J out(const I& i) { J o = J::arr(); o.push(out(i.lower())); o.push(ty(i.lowerBoundType())); o.push(out(i.upper())); o.push(ty(i.upperBoundType())); return o; }
static J two(bool t, const I& a, const I& b) { J o = J::obj(); o.set("two", J(t)); o.set("a", out(a)); o.set("b", out(b)); return o; }
static bool point(const I& i) { return i.isPointInterval(); }

static std::vector<I> r;
static I& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }
static J store(const J& c, const I& i) { reg(c, "d") = i; return out(reg(c, "d")); }

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "lit") {
		const J& x = c["x"];
		N l = q(x[0]), u = q(x[2]); BoundType lt = ty(x[1]), ut = ty(x[3]);
		const std::string& h = c["how"].s;
		if (h == "pt") return store(c, I(l));
		if (h == "two") return store(c, I(l, u));
		if (h == "boost") return store(c, I(I::BoostInterval(l, u), lt, ut));
		if (h == "bounds") return store(c, I(carl::LowerBound<N>{l, lt}, carl::UpperBound<N>{u, ut}));
		if (h == "full") return store(c, I::unboundedInterval());
		if (h == "empty") return store(c, I::emptyInterval());
		if (h == "zero") return store(c, I::zeroInterval());
		if (h == "int") return store(c, I(int(l.get_num().get_si()), lt, int(u.get_num().get_si()), ut));
		return store(c, I(l, lt, u, ut));
	}
	if (op == "bin") { const I &a = reg(c, "a"), &b = reg(c, "b"); return store(c, c["f"] == "add" ? a + b : c["f"] == "sub" ? a - b : a * b); }
	if (op == "inp") {
		I &a = reg(c, "a"); const I& b = reg(c, "b");
		if (c["f"] == "add") a += b; else if (c["f"] == "sub") a -= b; else a *= b;
		return out(a);
	}
	if (op == "num") {
		const I& a = reg(c, "a"); N n = q(c["c"]); const std::string& f = c["f"].s; bool fl = c["flip"].b;
		if (f == "add") return store(c, fl ? n + a : a + n);
		if (f == "sub") return store(c, a - n);
		if (f == "rsub") return store(c, n - a);
		if (f == "div") return store(c, a / n);
		return store(c, fl ? n * a : a * n);
	}
	if (op == "numin") {
		I& a = reg(c, "a"); N n = q(c["c"]); const std::string& f = c["f"].s;
		if (f == "add") a += n; else if (f == "sub") a -= n; else if (f == "div") a /= n; else a *= n;
		return out(a);
	}
	if (op == "neg") return store(c, c["how"] == "inv" ? reg(c, "a").inverse() : -reg(c, "a"));
	if (op == "copy") return store(c, reg(c, "a"));
	if (op == "pow") { if (c["how"] == "in") { I i = reg(c, "a"); carl::pow_assign(i, unsigned(c["n"].i)); return store(c, i); } return store(c, carl::pow(reg(c, "a"), unsigned(c["n"].i))); }
	if (op == "int") { if (c["how"] == "in") { I i = reg(c, "a"); i.integralPart_assign(); return store(c, i); } return store(c, reg(c, "a").integralPart()); }
	if (op == "hull") return store(c, reg(c, "a").convexHull(reg(c, "b")));
	if (op == "cap") return store(c, carl::set_intersection(reg(c, "a"), reg(c, "b")));
	if (op == "bloat") { I& a = reg(c, "a"); need(!a.isEmpty()); a.bloat_by(q(c["c"])); return out(a); }
	if (op == "setl" || op == "setu") {
		I& a = reg(c, "a"); N n = q(c["c"]); BoundType t = ty(c["t"]);
		need(!a.isEmpty());
		need(!(op == "setl" ? I(n, t, a.upper(), a.upperBoundType()) : I(a.lower(), a.lowerBoundType(), n, t)).isEmpty());
		if (op == "setl") a.setLowerBound(n, t); else a.setUpperBound(n, t);
		return out(a);
	}
	if (op == "div") {
		const I &a = reg(c, "a"), &b = reg(c, "b");
		need(!b.isEmpty() && !b.contains(N(0)));
		return store(c, a.div(b));
	}
	if (op == "abs") return store(c, c["how"] == "m" ? reg(c, "a").abs() : carl::abs(reg(c, "a")));
	if (op == "floor") return store(c, carl::floor(reg(c, "a")));
	if (op == "ceil") return store(c, carl::ceil(reg(c, "a")));
	if (op == "view") {
		const I& a = reg(c, "a");
		J o = J::obj();
		o.set("x", out(a)); o.set("empty", J(a.isEmpty())); o.set("inf", J(a.isInfinite())); o.set("unb", J(a.isUnbounded())); o.set("half", J(a.isHalfBounded()));
		o.set("point", J(a.isPointInterval())); o.set("closed", J(a.isClosedInterval())); o.set("open", J(a.isOpenInterval()));
		o.set("zero", J(a.isZero())); o.set("one", J(a.isOne())); o.set("isint", J(carl::isInteger(a)));
		o.set("pos", J(a.isPositive())); o.set("neg", J(a.isNegative())); o.set("spos", J(a.isSemiPositive())); o.set("sneg", J(a.isSemiNegative()));
		o.set("sgn", J((long)(a.sgn() == carl::Sign::POSITIVE ? 1 : a.sgn() == carl::Sign::NEGATIVE ? -1 : 0)));
		o.set("hasint", J(a.containsInteger())); o.set("diam", out(a.diameter())); o.set("mag", out(a.magnitude()));
		J rel = J::obj();
		using R = carl::Relation;
		for (auto [n, x] : {std::make_pair("lt", R::LESS), {"le", R::LEQ}, {"gt", R::GREATER}, {"ge", R::GEQ}, {"eq", R::EQ}, {"ne", R::NEQ}}) {
			boost::tribool t = carl::evaluate(a, x);
			rel.set(n, J(boost::indeterminate(t) ? "?" : bool(t) ? "t" : "f"));
		}
		o.set("rel", rel);
		return o;
	}
	if (op == "pair") {
		const I &a = reg(c, "a"), &b = reg(c, "b");
		J o = J::obj();
		o.set("eq", J(a == b)); o.set("ne", J(a != b)); o.set("hash", J(std::hash<I>()(a) == std::hash<I>()(b)));
		o.set("sub", J(carl::set_is_subset(a, b))); o.set("psub", J(carl::set_is_proper_subset(a, b)));
		o.set("meet", J(carl::set_have_intersection(a, b))); o.set("contains", J(a.contains(b)));
		o.set("lt", J(a < b)); o.set("gt", J(a > b)); o.set("le", J(a <= b)); o.set("ge", J(a >= b));
		o.set("lolt", J(a.lowerBound() < b.lowerBound())); o.set("lole", J(a.lowerBound() <= b.lowerBound()));
		o.set("uplt", J(a.upperBound() < b.upperBound())); o.set("uple", J(a.upperBound() <= b.upperBound()));
		o.set("uplo", J(a.upperBound() < b.lowerBound())); o.set("loup", J(a.lowerBound() <= b.upperBound()));
		o.set("dist", out(I(a).distance(b)));
		return o;
	}
	if (op == "cmpn") {
		const I& a = reg(c, "a"); N n = q(c["c"]);
		J o = J::obj();
		o.set("in", J(a.contains(n))); o.set("meets", J(a.meets(n))); o.set("eq", J(a == n)); o.set("eq2", J(n == a)); o.set("ne", J(a != n));
		o.set("lt", J(a < n)); o.set("gt", J(a > n)); o.set("le", J(a <= n)); o.set("ge", J(a >= n));
		o.set("nlt", J(n < a)); o.set("ngt", J(n > a)); o.set("nle", J(n <= a)); o.set("nge", J(n >= a));
		return o;
	}
	I x(N(77)), y(N(78));
	if (op == "recip") { bool t = reg(c, "a").reciprocal(x, y); return two(t, x, y); }
	if (op == "divext") { bool t = reg(c, "a").div_ext(reg(c, "b"), x, y); return two(t, x, y); }
	if (op == "union") { bool t = carl::set_union(reg(c, "a"), reg(c, "b"), x, y); return two(t, x, y); }
	if (op == "minus") { bool t = carl::set_difference(reg(c, "a"), reg(c, "b"), x, y); return two(t, x, y); }
	if (op == "symm") { bool t = carl::set_symmetric_difference(reg(c, "a"), reg(c, "b"), x, y); return two(t, x, y); }
	if (op == "compl") { bool t = carl::set_complement(reg(c, "a"), x, y); return two(t, x, y); }
	if (op == "split") {
		const I& a = reg(c, "a");
		need(!a.isEmpty() && !point(a) && !(c["n"].i > 0 && a.isUnbounded()));
		J o = J::arr();
		if (c["n"].i == 0) { auto p = a.split(); o.push(out(p.first)); o.push(out(p.second)); }
		else for (const auto& p : a.split(unsigned(c["n"].i))) o.push(out(p));
		return o;
	}
	if (op == "sample") {
		const I& a = reg(c, "a"); bool inc = c["incl"].b;
		need(!a.isEmpty() && !(point(a) && !inc));
		J o = J::obj();
		o.set("sample", out(carl::sample(a, inc))); o.set("sb", out(carl::sample_stern_brocot(a, inc))); o.set("center", out(carl::center(a)));
		o.set("left", out(carl::sample_left(a))); o.set("right", out(carl::sample_right(a))); o.set("zero", out(carl::sample_zero(a))); o.set("infty", out(carl::sample_infty(a)));
		return o;
	}
	throw std::runtime_error("unknown op " + op);
}
static void begin(const J& h) { r.assign(std::size_t(h["k"].i), I::emptyInterval()); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
