// libs: carl carl-logging
// Elementary functions of intervals with double bounds (C39).
#include "polyio.h"
#include <carl/interval/Interval.h>
#include <carl/interval/exponential.h>
#include <carl/interval/trigonometric.h>
#include <cmath>

using Q = mpq_class;
using I = carl::Interval<double>;
using carl::BoundType;
static BoundType ty(const J& j) { return j == "S" ? BoundType::STRICT : j == "W" ? BoundType::WEAK : BoundType::INFTY; }
static J ty(BoundType t) { return J(t == BoundType::STRICT ? "S" : t == BoundType::WEAK ? "W" : "I"); }
static double d(const J& j) { Q x = pio::num<Q>(j); double r = x.get_d(); if (Q(r) != x) throw std::logic_error("driver: not a double: " + j.s); return r; }
static J out(const I& i) {
	bool li = i.lowerBoundType() == BoundType::INFTY || i.lower() == -INFINITY, ui = i.upperBoundType() == BoundType::INFTY || i.upper() == INFINITY;
	if ((!li && !std::isfinite(i.lower())) || (!ui && !std::isfinite(i.upper()))) return J::arr({J("0"), J("N"), J("0"), J("N")}); // no interval
	J o = J::arr();
	o.push(li ? J("0") : J(Q(i.lower()).get_str())); o.push(li ? J("I") : ty(i.lowerBoundType()));
	o.push(ui ? J("0") : J(Q(i.upper()).get_str())); o.push(ui ? J("I") : ty(i.upperBoundType()));
	return o;
}
static void begin(const J&) {}
#define FN(f) if (fn == #f) { v = carl::f(x); carl::f##_assign(a); } else
static J cmd(const J& c) {
	const J& w = c["x"];
	I x(d(w[0]), ty(w[1]), d(w[2]), ty(w[3])), v, a = x;
	const std::string& fn = c["fn"].s;
	FN(exp) FN(log) FN(sin) FN(cos) FN(tan) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(asinh) FN(acosh) FN(atanh) throw std::logic_error("driver: function");
	return J::obj().set("v", out(v)).set("a", out(a));
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
