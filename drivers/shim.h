// Stand-ins for the classes that need CoCoALib, which is not installed: every use throws.
#pragma once
#include <ostream>
#include <utility>
#include <vector>
namespace CoCoA {
struct ErrorInfo {};
inline const char* context(const ErrorInfo&) { return ""; }
inline std::ostream& operator<<(std::ostream& o, const ErrorInfo&) { return o; }
}
namespace carl {
class Variable;
template<typename Poly>
class CoCoAAdaptor {
public:
	template<typename... A> CoCoAAdaptor(A&&...) {}
	std::vector<Poly> GBasis(const std::vector<Poly>&) const { throw CoCoA::ErrorInfo(); }
};
}
namespace carl::ran::interval {
template<typename R, typename Poly>
class FieldExtensions {
public:
	template<typename V, typename A> std::pair<bool, Poly> extend(const V&, const A&) { throw CoCoA::ErrorInfo(); }
};
template<typename R, typename Poly>
class LazardEvaluation {
public:
	LazardEvaluation(const Poly&) {}
	template<typename V, typename A> std::pair<bool, Poly> substitute(const V&, const A&, bool = true) { throw CoCoA::ErrorInfo(); }
	Poly getLiftingPoly() const { throw CoCoA::ErrorInfo(); }
};
}
