// libs: carl carl-logging
// Bit-vector values (C19).
#include "bvio.h"

using V = carl::BVValue;
static std::vector<V> R;
static void begin(const J& h) { R.assign(std::size_t(h["k"].i) + 1, V(1, 0)); }
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	auto r = [&](const char* k) -> V& { return R.at(std::size_t(c[k].i)); };
	auto put = [&](V v) { r("d") = v; return bvio::out(r("d")); };
	if (op == "int") {
		mpz_class n(c["n"].s); std::size_t w = std::size_t(c["w"].i);
		if (c["how"] == "u" && n >= 0 && n.fits_ulong_p()) return put(V(w, carl::uint(n.get_ui())));
		return put(V(w, n));
	}
	if (op == "str") { std::string s; for (const auto& ch : c["s"]) s += ch.s; return put(c["how"] == "off" ? V("10" + s, 2, s.size()) : V(s)); }
	if (op == "cmp") {
		const V& a = r("a"); const V& b = r("b"); need(a.width() == b.width());
		J j = J::obj(); j.set("eq", J(a == b)); j.set("lt", J(a < b)); j.set("hash", J(std::hash<V>()(a) == std::hash<V>()(b)));
		return j;
	}
	if (op == "view") {
		const V& a = r("a"); J j = J::obj(); std::stringstream ss; ss << a;
		j.set("zero", J(a.isZero())); j.set("str", J(ss.str() == a.toString() ? ss.str() : "differs")); j.set("bit", J(a[std::size_t(c["i"].i) % a.width()] ? "1" : "0"));
		return j;
	}
	if (op == "flip") { V& a = r("a"); std::size_t i = std::size_t(c["i"].i) % a.width(); a[i] = !a[i]; return bvio::out(a); }
	if (op == "ext") { const V& a = r("a"); std::size_t h = std::size_t(c["h"].i), l = std::size_t(c["l"].i); need(l <= h && h < a.width()); return put(a.extract(h, l)); }
	const std::string& o = c["o"].s;
	const V& a = r("a");
	if (op == "un") {
		std::size_t i = std::size_t(c["i"].i);
		if (o == "not") return put(~a);
		if (o == "neg") return put(-a);
		if (o == "lrot") return put(a.rotateLeft(i));
		if (o == "rrot") return put(a.rotateRight(i));
		if (o == "rep") { need(i > 0); return put(a.repeat(i)); }
		if (o == "extu") return put(a.extendUnsignedBy(i));
		if (o == "exts") return put(a.extendSignedBy(i));
	}
	if (op == "bin") {
		const V& b = r("b");
		if (o == "concat") return put(a.concat(b));
		need(a.width() == b.width());
		if (o == "and") return put(a & b);
		if (o == "or") return put(a | b);
		if (o == "xor") return put(a ^ b);
		if (o == "add") return put(a + b);
		if (o == "sub") return put(a - b);
		if (o == "mul") return put(a * b);
		if (o == "shl") return put(a << b);
		if (o == "lshr") return put(a >> b);
		if (o == "ashr") return put(a.rightShiftArithmetic(b));
		need(bvio::bits(b).find('1') != std::string::npos);
		if (o == "udiv") return put(a / b);
		if (o == "urem") return put(a % b);
		if (o == "sdiv") return put(a.divideSigned(b));
		if (o == "srem") return put(a.remSigned(b));
		if (o == "smod") return put(a.modSigned(b));
	}
	throw std::logic_error("driver: bad op " + op + " " + o);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
