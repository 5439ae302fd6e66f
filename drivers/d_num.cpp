// libs: carl carl-logging
// Number functions, parsing, printing and conversion (C16, C17).
#include "polyio.h"
#include <carl/core/Sign.h>
#include <carl/numbers/numbers.h>
#include <carl/numbers/PrimeFactory.h>
#include <carl/numbers/FactorizationFactory.h>
#include <carl/numbers/adaption_native/EEA.h>
#include <carl/numbers/conversion/conversion.h>
#include <memory>

using Z = mpz_class;
using Q = mpq_class;
using S = carl::sint;
using U = carl::uint;
static std::unique_ptr<carl::FactorizationFactory<U>> fact;

template<typename T> T in(const J& j) { if constexpr (std::is_same<T, S>::value) return S(std::stoll(j.s)); else if constexpr (std::is_same<T, U>::value) return U(std::stoull(j.s)); else return T(j.s); }
static J o(const Z& z) { return J(z.get_str()); }
static J o(const Q& q) { return J(q.get_str()); }
static J o(S s) { return J(std::to_string(s)); }
static J o(U s) { return J(std::to_string(s)); }
static J od(double d) { if (std::isinf(d)) return J(d > 0 ? "inf" : "-inf"); return J(Q(d).get_str()); }
template<typename T> J pair(const std::pair<T, T>& p) { J a = J::arr(); a.push(o(p.first)); a.push(o(p.second)); return a; }

template<typename T>
J num(const J& c) {
	constexpr bool isS = std::is_same<T, S>::value, isQ = std::is_same<T, Q>::value, isZ = std::is_same<T, Z>::value;
	const std::string& op = c["op"].s;
	T a = in<T>(c["a"]);
	J r = J::obj();
	if (op == "un") {
		if constexpr (isS) r.set("abs", o(a == std::numeric_limits<S>::min() ? Q(carl::abs(Z(std::to_string(a)))) : Q(std::to_string(std::abs(a)))));
		else r.set("abs", o(carl::abs(a)));
		r.set("zero", J(carl::isZero(a))); r.set("one", J(carl::isOne(a))); r.set("int", J(carl::isInteger(a)));
		auto s = carl::sgn(a);
		r.set("sgn", J((long)(s == carl::Sign::POSITIVE ? 1 : s == carl::Sign::NEGATIVE ? -1 : 0)));
		if constexpr (!isS) {
			r.set("pos", J(carl::isPositive(a))); r.set("neg", J(carl::isNegative(a)));
			r.set("floor", o(carl::floor(a))); r.set("ceil", o(carl::ceil(a))); r.set("round", o(carl::round(a)));
			r.set("num", o(carl::getNum(a))); r.set("den", o(carl::getDenom(a))); r.set("bits", J((long)carl::bitsize(a)));
		}
		return r;
	}
	if (op == "cmp") {
		T b = in<T>(c["b"]);
		r.set("eq", J(a == b)); r.set("ne", J(a != b)); r.set("lt", J(a < b)); r.set("le", J(a <= b)); r.set("gt", J(a > b)); r.set("ge", J(a >= b));
		r.set("hash", J(std::hash<T>()(a) == std::hash<T>()(b)));
		return r;
	}
	if constexpr (!isQ) {
		if (op == "idiv") {
			T b = in<T>(c["b"]);
			need(b != 0);
			if constexpr (isS) need(!(a == std::numeric_limits<S>::min() && b == -1));
			r.set("quo", o(carl::quotient(a, b))); r.set("rem", o(carl::remainder(a, b))); r.set("mod", o(carl::mod(a, b)));
			T q, m; carl::divide(a, b, q, m);
			r.set("dq", o(q)); r.set("dr", o(m));
			return r;
		}
		if (op == "eea") return pair(carl::EEA<T>::calculate(a, in<T>(c["b"])));
	}
	if (op == "exdiv") {
		T b = in<T>(c["b"]);
		need(b != 0);
		if constexpr (isS) need(!(a == std::numeric_limits<S>::min() && b == -1));
		if constexpr (!isQ) need(carl::isZero(carl::remainder(a, b)));
		r.set("div", o(carl::div(a, b))); r.set("quo", o(carl::quotient(a, b))); r.set("opr", o(T(a / b)));
		T x = a;
		if constexpr (isS) x = carl::div(x, b); else carl::div_assign(x, b);
		r.set("asg", o(x));
		return r;
	}
	if (op == "pow") {
		std::size_t n = std::size_t(c["n"].i);
		if constexpr (isS) { Z p; mpz_pow_ui(p.get_mpz_t(), Z(std::to_string(a)).get_mpz_t(), n); need(p.fits_slong_p()); }
		r.set("pow", o(T(carl::pow(a, n))));
		T x = a; carl::pow_assign(x, n);
		r.set("asg", o(x));
		return r;
	}
	if constexpr (!isS) {
		if (op == "gcd") {
			T b = in<T>(c["b"]);
			r.set("gcd", o(carl::gcd(a, b))); r.set("lcm", o(carl::lcm(a, b)));
			T x = a; carl::gcd_assign(x, b);
			r.set("asg", o(x));
			return r;
		}
		if (op == "toint") {
			const std::string& to = c["to"].s;
			need(carl::isInteger(a));
			Z z = carl::getNum(a);
			if (to == "S") { need(z.fits_slong_p()); return o(carl::toInt<S>(a)); }
			if (to == "U") { need(z.fits_ulong_p()); return o(carl::toInt<U>(a)); }
			if constexpr (isQ) return o(carl::toInt<Z>(a)); else return o(a);
		}
	}
	if constexpr (isQ) {
		if (op == "recip") { need(a != 0); return o(carl::reciprocal(a)); }
		if (op == "sqrtx") { Q b(77); bool k = carl::sqrt_exact(a, b); r.set("ok", J(k)); r.set("v", o(b)); return r; }
		if (op == "sqrts") { need(a > 0); return pair(carl::sqrt_safe(a)); }
		if (op == "sqrtf") { need(a >= 0); return pair(carl::sqrt_fast(a)); }
		if (op == "rootx") { need(a > 0); return pair(carl::root_safe(a, U(c["n"].i))); }
		if (op == "print") {
			r.set("infix", J(carl::toString(a, true))); r.set("prefix", J(carl::toString(a, false)));
			std::stringstream ss; ss << a;
			r.set("str", J(ss.str())); r.set("back", o(carl::parse<Q>(ss.str())));
			if (carl::isInteger(a)) {
				Z z = carl::toInt<Z>(a);
				r.set("zinfix", J(carl::toString(z, true))); r.set("zprefix", J(carl::toString(z, false)));
				std::stringstream s2; s2 << z;
				r.set("zback", o(carl::parse<Z>(s2.str())));
			}
			return r;
		}
		if (op == "dbl") {
			r.set("d", od(c["how"] == "conv" ? carl::convert<Q, double>(a) : carl::toDouble(a)));
			r.set("down", od(carl::roundDown(a))); r.set("up", od(carl::roundUp(a))); r.set("downo", od(carl::roundDown(a, true))); r.set("upo", od(carl::roundUp(a, true)));
			if (carl::isInteger(a)) r.set("z", od(carl::toDouble(carl::getNum(a))));
			return r;
		}
		if (op == "fromd") {
			double d = a.get_d();
			r.set("q", o(carl::rationalize<Q>(d))); r.set("conv", o(carl::convert<double, Q>(d))); r.set("back", od(carl::toDouble(carl::rationalize<Q>(d))));
			r.set("int", J(carl::isInteger(d))); r.set("floor", od(carl::floor(d))); r.set("ceil", od(carl::ceil(d)));
			return r;
		}
	}
	if (op == "hp") return o(U(carl::highestPower(in<U>(c["a"]))));
	throw std::logic_error("driver: bad op " + op);
}

static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	if (op == "fact") { J a = J::arr(); for (U p : (*fact)(U(c["n"].i))) a.push(J((long)p)); return a; }
	if (op == "primes") {
		long n = c["n"].i;
		carl::PrimeFactory<U> f, g; carl::PrimeFactory<Z> h;
		J p = J::arr(), z = J::arr(), ix = J::arr(), r = J::obj();
		for (long i = 0; i < n; ++i) ix.push(J((long)g[std::size_t(i)]));
		for (long i = 0; i < n; ++i) { p.push(J((long)f.nextPrime())); z.push(J((long)h.nextPrime().get_si())); }
		r.set("p", p); r.set("z", z); r.set("ix", ix);
		return r;
	}
	if (op == "parse") {
		std::string s;
		for (const auto& ch : c["s"]) s += ch.s;
		J r = J::obj();
		if (c["t"] == "Z") { Z z(77); bool k = carl::try_parse<Z>(s, z); r.set("ok", J(k)); r.set("v", o(z)); if (k && carl::parse<Z>(s) != z) r.set("v", J("differs")); }
		else { Q q(77); bool k = carl::try_parse<Q>(s, q); r.set("ok", J(k)); r.set("v", o(q)); if (k && carl::parse<Q>(s) != q) r.set("v", J("differs")); }
		return r;
	}
	if (op == "fromint") {
		J r = J::obj();
		if (c["t"] == "U") { U u = in<U>(c["a"]); r.set("z", o(carl::fromInt<Z>(u))); r.set("q", o(carl::fromInt<Q>(u))); if (carl::rationalize<Q>(u) != carl::fromInt<Q>(u)) r.set("q", J("differs")); }
		else { S u = in<S>(c["a"]); r.set("z", o(carl::fromInt<Z>(u))); r.set("q", o(carl::fromInt<Q>(u))); if (carl::rationalize<Q>(u) != carl::fromInt<Q>(u)) r.set("q", J("differs")); }
		return r;
	}
	if (c["t"] == "Z") return num<Z>(c);
	if (c["t"] == "S") return num<S>(c);
	return num<Q>(c);
}
static void begin(const J&) { fact = std::make_unique<carl::FactorizationFactory<U>>(); }
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
