S = "src/carl/"
NUM = '''
#include <carl/core/Relation.h>
#include <carl/numbers/numbers.h>
#include <iostream>
using namespace carl;
'''
BUGS = [
 dict(id="relation-difference-left-type", property="C30",
      needs="operands of different types whose difference is not a number of the left type",
      breaks="1 < 1.5 is evaluated to false",
      edits=[(S + "core/Relation.h", "	return evaluate(sgn(lhs - rhs), r);", "	const T1 difference = lhs - rhs;\n	return evaluate(sgn(difference), r);")],
      demo=NUM + """
int main() {
	return evaluate(1, Relation::LESS, 1.5) && evaluate(2, Relation::NEQ, 1.75) && !evaluate(-1, Relation::GEQ, -0.5) ? 0 : 1;
}
"""),
 dict(id="elem-atan-bound-type", property="C39",
      needs="the arc tangent of an interval that is closed at zero and open at its upper end",
      breaks="zero is not in the result although it is attained",
      edits=[(S + "interval/trigonometric.h", "boost::numeric::atan(i.rContent()), i.lowerBoundType(), i.upperBoundType()", "boost::numeric::atan(i.rContent()), i.upperBoundType(), i.upperBoundType()")],
      demo="""
#include <carl/interval/Interval.h>
#include <carl/interval/trigonometric.h>
using namespace carl;
int main() {
	Interval<double> i(0.0, BoundType::WEAK, 1.0, BoundType::STRICT);
	return atan(i).contains(0.0) ? 0 : 1;
}
"""),
 dict(id="elem-exp-lower-end", property="C39",
      needs="the exponential of an interval without lower bound whose upper bound is negative",
      breaks="the result lies above the values of the function",
      edits=[(S + "interval/exponential.h", "	return Interval<Number>(boost::numeric::exp(i.rContent()), i.lowerBoundType(), i.upperBoundType());", "	return Interval<Number>(boost::numeric::exp(i.rContent()), i.lowerBoundType() == BoundType::INFTY ? BoundType::WEAK : i.lowerBoundType(), i.upperBoundType());")],
      demo="""
#include <carl/interval/Interval.h>
#include <carl/interval/exponential.h>
using namespace carl;
int main() {
	Interval<double> i(0.0, BoundType::INFTY, -1.0, BoundType::WEAK);
	return exp(i).contains(0.1) ? 0 : 1;
}
"""),
]
