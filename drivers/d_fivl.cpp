// libs: carl carl-logging
// Intervals with double bounds (C15).
#include "polyio.h"
#include <carl/interval/Interval.h>
#include <carl/interval/conversion.h>
#include <carl/interval/power.h>
#include <carl/interval/set_theory.h>
#include <cmath>

using Q = mpq_class;
using I = carl::Interval<double>;
using IQ = carl::Interval<Q>;
using carl::BoundType;
static BoundType ty(const J& j) { return j == "S" ? BoundType::STRICT : j == "W" ? BoundType::WEAK : BoundType::INFTY; }
static J ty(BoundType t) { return J(t == BoundType::STRICT ? "S" : t == BoundType::WEAK ? "W" : "I"); }
static Q q(const J& j) { return pio::num<Q>(j); }
static double d(const J& j) { Q x = q(j); double r = x.get_d(); if (Q(r) != x) throw std::runtime_error("not a double: " + j.s); return r; }
static J num(double x) { return J(std::isinf(x) ? (x > 0 ? "+oo" : "-oo") : Q(x).get_str()); }
static J out(const I& i) {
	bool li = i.lowerBoundType() == BoundType::INFTY || i.lower() == -INFINITY, ui = i.upperBoundType() == BoundType::INFTY || i.upper() == INFINITY;
	J o = J::arr();
	o.push(li ? J("0") : num(i.lower())); o.push(li ? J("I") : ty(i.lowerBoundType()));
	o.push(ui ? J("0") : num(i.upper())); o.push(ui ? J("I") : ty(i.upperBoundType()));
	return o;
}
static J outq(const IQ& i) { J o = J::arr(); o.push(pio::out(i.lower())); o.push(ty(i.lowerBoundType())); o.push(pio::out(i.upper())); o.push(ty(i.upperBoundType())); return o; }
static J two(bool t, const I& a, const I& b) { J o = J::obj(); o.set("two", J(t)); o.set("a", out(a)); o.set("b", out(b)); return o; }

static std::vector<I> r;
static I& reg(const J& c, const char* k) { return r.at(std::size_t(c[k].i) - 1); }
static J store(const J& c, const I& i) { reg(c, "d") = i; return out(reg(c, "d")); }

// Neither bound is a subnormal double, whose reciprocal overflows.
static void needNormal(const I& i) { if (!i.isEmpty()) for (double b : {i.lower(), i.upper()}) need(b == 0 || std::abs(b) >= 0x1p-1022); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "lit") {
		const J& x = c["x"];
		BoundType lt = ty(x[1]), ut = ty(x[3]);
		const std::string& h = c["how"].s;
		if (h == "dbl") return store(c, I(d(x[0]), lt, d(x[2]), ut));
		if (h == "boost") return store(c, I(I::BoostInterval(d(x[0]), d(x[2])), lt, ut));
		if (h == "rat") return store(c, I(q(x[0]), lt, q(x[2]), ut));
		if (h == "rat2") return store(c, I(q(x[0]), q(x[2])));
		if (h == "pt") return store(c, I(q(x[0])));
		if (h == "conv") return store(c, I(IQ(q(x[0]), lt, q(x[2]), ut)));
		if (h == "convert") return store(c, carl::convert<Q, double>(IQ(q(x[0]), lt, q(x[2]), ut)));
	}
	if (op == "bin") { const I &a = reg(c, "a"), &b = reg(c, "b"); return store(c, c["f"] == "add" ? a + b : c["f"] == "sub" ? a - b : a * b); }
	if (op == "inp") {
		I &a = reg(c, "a"); const I& b = reg(c, "b");
		if (c["f"] == "add") a += b; else if (c["f"] == "sub") a -= b; else a *= b;
		return out(a);
	}
	if (op == "num") {
		const I& a = reg(c, "a"); double n = d(c["c"]); const std::string& f = c["f"].s; bool fl = c["flip"].b;
		need(f != "div" || n != 0);
		if (f == "add") return store(c, fl ? n + a : a + n);
		if (f == "sub") return store(c, a - n);
		if (f == "rsub") return store(c, n - a);
		if (f == "div") return store(c, a / n);
		return store(c, fl ? n * a : a * n);
	}
	if (op == "neg") return store(c, c["how"] == "inv" ? reg(c, "a").inverse() : -reg(c, "a"));
	if (op == "copy") return store(c, reg(c, "a"));
	if (op == "pow") { if (c["how"] == "in") { I i = reg(c, "a"); carl::pow_assign(i, unsigned(c["n"].i)); return store(c, i); } return store(c, carl::pow(reg(c, "a"), unsigned(c["n"].i))); }
	if (op == "sqrt" || op == "root") needNormal(reg(c, "a"));
	if (op == "sqrt") return store(c, carl::sqrt(reg(c, "a")));
	if (op == "root") { if (c["how"] == "in") { I i = reg(c, "a"); i.root_assign(unsigned(c["n"].i)); return store(c, i); } return store(c, reg(c, "a").root(int(c["n"].i))); }
	if (op == "int") return store(c, reg(c, "a").integralPart());
	if (op == "hull") return store(c, reg(c, "a").convexHull(reg(c, "b")));
	if (op == "cap") return store(c, carl::set_intersection(reg(c, "a"), reg(c, "b")));
	if (op == "div") {
		const I &a = reg(c, "a"), &b = reg(c, "b");
		need(!b.isEmpty() && !b.contains(0.0));
		return store(c, a.div(b));
	}
	if (op == "abs") return store(c, c["how"] == "m" ? reg(c, "a").abs() : carl::abs(reg(c, "a")));
	if (op == "floor") return store(c, carl::floor(reg(c, "a")));
	if (op == "ceil") return store(c, carl::ceil(reg(c, "a")));
	if (op == "in") return J(reg(c, "a").contains(d(c["c"])));
	if (op == "exact") return outq(c["how"] == "conv" ? IQ(reg(c, "a")) : carl::convert<double, Q>(reg(c, "a")));
	if (op == "round") {
		Q x = q(c["c"]);
		J o = J::obj();
		o.set("dn", num(carl::roundDown(x))); o.set("up", num(carl::roundUp(x)));
		o.set("dno", num(carl::roundDown(x, true))); o.set("upo", num(carl::roundUp(x, true)));
		return o;
	}
	I x(77.0), y(78.0);
	if (op == "recip") { bool t = reg(c, "a").reciprocal(x, y); return two(t, x, y); }
	if (op == "divext") { bool t = reg(c, "a").div_ext(reg(c, "b"), x, y); return two(t, x, y); }
	if (op == "union") { bool t = carl::set_union(reg(c, "a"), reg(c, "b"), x, y); return two(t, x, y); }
	throw std::runtime_error("unknown op " + op);
}
static void begin(const J& h) { r.assign(std::size_t(h["k"].i), I::emptyInterval()); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
