// Conversions between the wire form of monomials/polynomials and the library's objects.
#pragma once
#include "vj.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/numbers.h>

namespace pio {
using carl::Monomial;
using carl::Term;
using carl::Variable;

inline std::vector<Variable>& vars() { static std::vector<Variable> v; return v; }

// "nv" variables; "types" optionally gives r(eal)/i(nt)/b(ool) per variable.
inline void make_vars(const J& hdr) {
	std::string types = hdr.has("types") ? hdr["types"].s : "";
	for (long i = 0; i < hdr["nv"].i; ++i) {
		auto t = carl::VariableType::VT_REAL;
		if (std::size_t(i) < types.size() && types[std::size_t(i)] == 'i') t = carl::VariableType::VT_INT;
		// The position of a variable is its rank in the library's variable order.
		Variable v = carl::freshVariable("v" + std::to_string(i), t);
		while (!vars().empty() && !(vars().back() < v)) v = carl::freshVariable("v" + std::to_string(i), t);
		vars().push_back(v);
	}
}

template<typename C> C num(const std::string& s);
template<> inline mpq_class num<mpq_class>(const std::string& s) { mpq_class q(s); q.canonicalize(); return q; }
template<> inline mpz_class num<mpz_class>(const std::string& s) { return mpz_class(s); }
template<typename C> C num(const J& j) { return num<C>(j.s); }
inline mpq_class rat(const J& j) { return num<mpq_class>(j.s); }

inline J out(const mpq_class& q) { return J(q.get_str()); }
inline J out(const mpz_class& q) { return J(q.get_str()); }

inline Monomial::Arg mono(const J& m) {
	Monomial::Content c;
	for (std::size_t i = 0; i < m.size(); ++i)
		if (m[i].i != 0) c.emplace_back(vars().at(i), std::size_t(m[i].i));
	if (c.empty()) return nullptr;
	return carl::MonomialPool::getInstance().create(std::move(c));
}
template<typename C> Term<C> term(const J& t) { return Term<C>(num<C>(t[1]), mono(t[0])); }
inline Variable var(const J& i) { return vars().at(std::size_t(i.i) - 1); }
inline long varIndex(Variable v) {
	for (std::size_t i = 0; i < vars().size(); ++i) if (vars()[i] == v) return long(i) + 1;
	return 0;
}

inline J out(const Monomial::Arg& m) {
	std::vector<long> e(vars().size(), 0);
	bool foreign = false, dup = false;
	if (m) for (const auto& p : *m) {
		long i = varIndex(p.first);
		if (i == 0) foreign = true;
		else { if (e[std::size_t(i) - 1] != 0) dup = true; e[std::size_t(i) - 1] += long(p.second); }
	}
	J r = J::arr();
	for (long x : e) r.push(J(x));
	if (foreign || dup) r.push(J(-1)); // never a well-formed monomial
	return r;
}
template<typename C> J out(const Term<C>& t) { return J::arr({out(t.monomial()), out(t.coeff())}); }
template<typename P> J outp(const P& p) {
	J r = J::arr();
	for (const auto& t : p) r.push(out(t));
	return r;
}
template<typename P> P poly(const J& j) {
	using C = typename P::CoeffType;
	std::vector<Term<C>> ts;
	for (const auto& t : j) ts.push_back(term<C>(t));
	return P(std::move(ts));
}
// Univariate polynomials: coefficient lists, lowest first.
template<typename C> J outu(const carl::UnivariatePolynomial<C>& p) {
	J r = J::arr();
	for (const auto& c : p.coefficients()) r.push(out(c));
	return r;
}
template<typename C> carl::UnivariatePolynomial<C> upoly(Variable v, const J& j) {
	std::vector<C> cs;
	for (const auto& c : j) cs.push_back(num<C>(c));
	return carl::UnivariatePolynomial<C>(v, cs);
}
}
