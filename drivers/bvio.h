#pragma once
#include "vj.h"
#include <carl/formula/bitvector/BVValue.h>
#include <gmpxx.h>
namespace bvio {
inline std::string bits(const carl::BVValue& v) { std::string s; for (std::size_t i = v.width(); i-- > 0;) s += v.base()[i] ? '1' : '0'; return s; }
inline J out(const carl::BVValue& v) {
	J r = J::obj();
	r.set("w", J((long)v.width())); r.set("n", J(v.width() == 0 ? "0" : mpz_class(bits(v), 2).get_str()));
	return r;
}
inline carl::BVValue in(std::size_t w, const std::string& n) {
	mpz_class m = mpz_class(1) << w, x(n), y;
	mpz_fdiv_r(y.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t());
	std::string s = y.get_str(2);
	while (s.size() < w) s = "0" + s;
	return carl::BVValue(s);
}
}
