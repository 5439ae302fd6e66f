From 9df482f8b95ccdfa003d81e5bf4c3d792b07a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 001/151] fix: MultivariatePolynomial::subtractProduct on a
 zero polynomial

The product was subtracted twice if the polynomial was zero.
---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..c55a720 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -383,6 +383,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
 	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
-- 
2.43.0


From 85e454e3feeb1dcbcc0e97a6306a007a022166c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 002/151] fix: MultivariatePolynomial::addTerm loses or
 misplaces terms

In an ordered polynomial a smaller term was appended behind the leading term.
In an unordered one the new term replaced nothing and the leading term was duplicated.
An empty unordered polynomial and a zero term were not handled.
---
 src/carl/core/MultivariatePolynomial.tpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index c55a720..0fc6dfe 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -412,6 +412,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 template<typename Coeff, typename Ordering, typename Policies>
 void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>& term) {
 	//std::cout << *this << " + " << term << std::endl;
+	if (carl::isZero(term.coeff())) return;
 	if (term.isConstant()) {
 		if (hasConstantTerm()) {
 			trailingTerm().coeff() += term.coeff();
@@ -421,21 +422,22 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		} else mTerms.insert(mTerms.begin(), term);
 		return;
 	}
+	if (mTerms.empty()) {
+		mTerms.push_back(term);
+		return;
+	}
 	if (mOrdered) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
-			switch (res) {
-			case CompareResult::LESS: break;
-			case CompareResult::EQUAL: {
+			if (res == CompareResult::LESS) break;
+			if (res == CompareResult::EQUAL) {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
 					mTerms.erase(it);
 				}
 				return;
 			}
-			case CompareResult::GREATER: ;
-			}
 		}
 		mTerms.insert(it, term);
 	} else {
@@ -462,9 +464,8 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
 			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			std::swap(*(mTerms.end()-2), mTerms.back());
 		}
 		}
 	}
-- 
2.43.0


From ee750d5b4dcc06c7b107ad7a4dedb54f8ab8b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 003/151] fix: adding the constant monomial to a polynomial

The constant term was inserted a second time or at the wrong position.
---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 0fc6dfe..7f5567f 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -763,6 +763,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff, Ordering, Policies>::operator+=(const Monomial::Arg& rhs)
 {
+	if (!rhs) return *this += constant_one<Coeff>::get();
 	if (mTerms.empty()) {
 		// Empty -> just insert.
 		mTerms.emplace_back(constant_one<Coeff>::get(), rhs);
-- 
2.43.0


From f39a73031bd4aeda2a5b726410599b7aefa79241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 004/151] fix: subtracting a constant term from a polynomial

The search for an equal monomial skips the constant term,
hence a second constant term was inserted.
---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7f5567f..77b315a 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -902,6 +902,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 {
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
 	if (Policies::searchLinear)
 	{
-- 
2.43.0


From 098cf6247c70da508c16bbffd5c79990f80eee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 005/151] fix: multiplying a polynomial by a zero term

The result contained terms with zero coefficients.
---
 src/carl/core/MultivariatePolynomial.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 77b315a..8110018 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -1058,6 +1058,10 @@ template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Ordering,Policies>::operator*=(const Term<Coeff>& rhs)
 {
 	assert(this->isConsistent());
+	if (carl::isZero(rhs.coeff())) {
+		mTerms.clear();
+		return *this;
+	}
 	///@todo more efficient.
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
-- 
2.43.0


From 4716741c8b373843cb9c5782aa02aa213a435629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 006/151] fix: the zeroth power of the zero polynomial is one

This is what pow_naive and the univariate pow return.
---
 src/carl/core/polynomialfunctions/Power.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Power.h b/src/carl/core/polynomialfunctions/Power.h
index 111dc2f..0a3e156 100644
--- a/src/carl/core/polynomialfunctions/Power.h
+++ b/src/carl/core/polynomialfunctions/Power.h
@@ -40,8 +40,8 @@ Term<Coeff> pow(const Term<Coeff>& t, uint exp) {
 template<typename C, typename O, typename P>
 MultivariatePolynomial<C,O,P> pow(const MultivariatePolynomial<C,O,P>& p, std::size_t exp) {
 	//std::cout << "pw(" << *this << " ^ " << exp << ")" << std::endl;
-	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 0) return MultivariatePolynomial<C,O,P>(constant_one<C>::get());
+	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 1) return MultivariatePolynomial<C,O,P>(p);
 	if (exp == 2) return p*p;
 	MultivariatePolynomial<C,O,P> res(constant_one<C>::get());
-- 
2.43.0


From 8c010219acb2ad90b9b3ff549fa9c91008d42e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:00 +0000
Subject: [PATCH 007/151] fix: comparisons of polynomials with terms and
 numbers involving zero

The comparison of polynomials makes zero the smallest polynomial.
The mixed comparisons used the numeric order for zero instead, so that
neither or both of a < b and b < a could hold.
Comparing the zero polynomial with a non-zero term for equality accessed
a leading term that does not exist.
---
 src/carl/core/MultivariatePolynomial_operators.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..030cab2 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -40,7 +40,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
 	if (isZero(lhs) && isZero(rhs)) return true;
-	if (lhs.nrTerms() > 1) return false;
+	if (lhs.nrTerms() != 1) return false;
 	return lhs.lterm() == rhs;
 }
 template<typename C, typename O, typename P>
@@ -194,7 +194,8 @@ inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const Multivaria
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
-	if (isZero(lhs)) return carl::constant_zero<C>().get() < rhs;
+	if (isZero(rhs)) return false;
+	if (isZero(lhs)) return true;
 	return lhs.lterm() < rhs;
 }
 template<typename C, typename O, typename P>
@@ -209,12 +210,14 @@ inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, Variable rhs) {
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const C& rhs) {
+	if (isZero(rhs)) return false;
 	if (isZero(lhs)) return true;
 	return lhs.lterm() < rhs;
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const Term<C>& lhs, const MultivariatePolynomial<C,O,P>& rhs) {
-	if (isZero(rhs)) return lhs < carl::constant_zero<C>().get();
+	if (isZero(rhs)) return false;
+	if (isZero(lhs)) return true;
 	if (lhs < rhs.lterm()) return true;
 	if (lhs == rhs.lterm()) return rhs.nrTerms() > 1;
 	return false;
@@ -235,7 +238,8 @@ inline bool operator<(Variable lhs, const MultivariatePolynomial<C,O,P>& rhs) {
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const C& lhs, const MultivariatePolynomial<C,O,P>& rhs) {
-	if (isZero(rhs)) return lhs < carl::constant_zero<C>().get();
+	if (isZero(rhs)) return false;
+	if (isZero(lhs)) return true;
 	return lhs < rhs.lterm();
 }
 /// @}
-- 
2.43.0


From 3fdc589d7c8f1389fdddc60ff8931af88d4b3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:42 +0000
Subject: [PATCH 008/151] fix: comparisons of a monomial with a variable
 contradict those of two monomials

The overloads for a variable ordered the variables the other way round,
and the lexical one took every monomial with the variable as first factor
to be equal to the variable.
---
 src/carl/core/Monomial.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..fce655a 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -404,9 +404,10 @@ namespace carl
 		static CompareResult compareLexical(const Monomial::Arg& lhs, Variable rhs)
 		{
 			if(!lhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
+			if(lhs->mExponents.front().second > 1) return CompareResult::LESS;
+			if(lhs->mExponents.size() > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 
@@ -428,9 +429,8 @@ namespace carl
 		{
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 		
-- 
2.43.0


From 60fbe6ff64c22ee9ceeb43f55f290b2ce850065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:42 +0000
Subject: [PATCH 009/151] fix: std::less for monomials is not irreflexive

The empty monomial was less than itself.
---
 src/carl/core/Monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index fce655a..bef41c3 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -693,7 +693,7 @@ namespace std
 	struct less<carl::Monomial::Arg> {
 		bool operator()(const carl::Monomial::Arg& lhs, const carl::Monomial::Arg& rhs) const {
 			if (lhs && rhs) return lhs < rhs;
-			return !lhs;
+			return !lhs && rhs;
 		}
 	};
 	
-- 
2.43.0


From 4b40865edfce747d1a314eed3a23a4fcddb20a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:42 +0000
Subject: [PATCH 010/151] fix: dividing a constant term by a monomial must fail

The division reported success with the constant as quotient.
---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0


From 594b58f43f82c9087954328a80a9307c1d64e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:42 +0000
Subject: [PATCH 011/151] fix: Term::dropVariable on a constant term

A constant term has no monomial, which was dereferenced.
---
 src/carl/core/Term.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.h b/src/carl/core/Term.h
index 72ce850..643d7d5 100644
--- a/src/carl/core/Term.h
+++ b/src/carl/core/Term.h
@@ -166,6 +166,7 @@ public:
 		 * Removes the given variable from the term.
 		 */
 	Term dropVariable(Variable v) const {
+		if (!mMonomial) return *this;
 		return Term(coeff(), monomial()->dropVariable(v));
 	}
 
-- 
2.43.0


From d28ce977dec3b70ee4c5afa9e82332c4344f1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:32 +0000
Subject: [PATCH 012/151] fix: derivative of the constant monomial dereferenced
 a null pointer

---
 src/carl/core/polynomialfunctions/Derivative.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/polynomialfunctions/Derivative.h b/src/carl/core/polynomialfunctions/Derivative.h
index 7b112a1..64872e2 100644
--- a/src/carl/core/polynomialfunctions/Derivative.h
+++ b/src/carl/core/polynomialfunctions/Derivative.h
@@ -34,6 +34,7 @@ const T& derivative(const T& t, Variable, std::size_t n = 1) {
  */
 inline std::pair<std::size_t,Monomial::Arg> derivative(const Monomial::Arg& m, Variable v, std::size_t n = 1) {
 	if (n == 0) return std::make_pair(1, m);
+	if (m == nullptr) return std::make_pair(0, nullptr);
 	auto it = std::find_if(m->begin(), m->end(),
 		[v](const auto& e){ return e.first == v; }
 	);
-- 
2.43.0


From 4cd511bfd7e34c8fdcb6849e741e99bdabeb0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:32 +0000
Subject: [PATCH 013/151] fix: substituting the main variable ignored the
 powers of the variable

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 26be063..4afc0d7 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -376,10 +376,7 @@ UnivariatePolynomial<Coeff> substitute(const UnivariatePolynomial<Coeff>& p, Var
 		return p;
 	} else {
 		if (var == p.mainVar()) {
-			UnivariatePolynomial<Coeff> res(p.mainVar());
-			for (const auto& c: p.coefficients()) {
-				res += substitute(c, var, value);
-			}
+			UnivariatePolynomial<Coeff> res(p.mainVar(), carl::evaluate(p, value));
 			CARL_LOG_TRACE("carl.core.uvpolynomial", p << " [ " << var << " -> " << value << " ] = " << res);
 			return res;
 		} else {
-- 
2.43.0


From ffde50d131fb019c156e14f9954afeb07966fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:32 +0000
Subject: [PATCH 014/151] fix: getVarInfo(var) always reported a minimal degree
 of zero

---
 src/carl/core/VariableInformation.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/carl/core/VariableInformation.h b/src/carl/core/VariableInformation.h
index 74fb553..d63f58b 100644
--- a/src/carl/core/VariableInformation.h
+++ b/src/carl/core/VariableInformation.h
@@ -77,11 +77,12 @@ public:
 
 	/**
 		 * If degree is smaller than minDegree, we set the minDegree to degree.
+		 * A minDegree of zero means that no degree was recorded yet.
          * @param degree
 		 * @return true if degree was smaller.
          */
 	bool lowerMinDegree(std::size_t degree) {
-		if (mMinDegree > degree) {
+		if (mMinDegree == 0 || mMinDegree > degree) {
 			mMinDegree = degree;
 			return true;
 		}
@@ -104,10 +105,8 @@ public:
 			// One more term in which the variable occurs.
 			increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				lowerMinDegree(e);
-			}
+			raiseMaxDegree(e);
+			lowerMinDegree(e);
 		}
 	}
 };
@@ -179,10 +178,8 @@ public:
 			// One more term in which the variable occurs.
 			this->increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!this->raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				this->lowerMinDegree(e);
-			}
+			this->raiseMaxDegree(e);
+			this->lowerMinDegree(e);
 		}
 	}
 };
-- 
2.43.0


From 3c4baeeb4b80806bbcc8c30a956609077b328096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 015/151] fix: substituting a variable by a zero term handed
 zero terms to the term addition

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 4afc0d7..afeb805 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -215,7 +215,10 @@ MultivariatePolynomial<C,O,P> substitute(const MultivariatePolynomial<C,O,P>& p,
 	auto& tam = MultivariatePolynomial<C,O,P>::mTermAdditionManager;
 	auto id = tam.getId(p.nrTerms());
 	for (const auto& term: p) {
-		tam.template addTerm<false>(id, substitute(term, substitutions));
+		Term<C> resultTerm = substitute(term, substitutions);
+		if (!carl::isZero(resultTerm)) {
+			tam.template addTerm<false>(id, resultTerm);
+		}
 	}
 	tam.readTerms(id, result.getTerms());
 	result.reset_ordered();
-- 
2.43.0


From f310272bf210a0b3c28416ab3454d888b07f1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 016/151] fix: order null pointers below all univariate
 polynomials

---
 src/carl/core/UnivariatePolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 841720e..674b876 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -904,7 +904,7 @@ struct less<carl::UnivariatePolynomial<Coefficient>> {
 	 */
 	bool operator()(const carl::UnivariatePolynomial<Coefficient>* lhs, const carl::UnivariatePolynomial<Coefficient>* rhs) const {
 		if (lhs == nullptr) return rhs != nullptr;
-		if (rhs == nullptr) return true;
+		if (rhs == nullptr) return false;
 		return lhs->less(*rhs, order);
 	}
 	/**
-- 
2.43.0


From 56e76dc386d76858631cdf38304de03675a59001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 017/151] fix: keep the zero univariate polynomial zero when
 multiplied by a variable

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..48091b2 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -598,6 +598,7 @@ UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& r
 template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -608,6 +609,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=
 template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
-- 
2.43.0


From a3eac073db928896891481912b64de3d9da55a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 018/151] fix: place coefficients of a map at their exponents
 in univariate polynomials

---
 src/carl/core/UnivariatePolynomial.tpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 48091b2..1b640d0 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -117,13 +117,12 @@ template<typename Coeff>
 UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::map<uint, Coeff>& coefficients)
 : mMainVar(mainVar)
 {
-	mCoefficients.reserve(coefficients.rbegin()->first);
+	if (!coefficients.empty()) {
+		mCoefficients.reserve(coefficients.rbegin()->first + 1);
+	}
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
-		{
-			mCoefficients.resize(expAndCoeff.first, Coeff(0));
-		}
+		mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		mCoefficients.push_back(expAndCoeff.second);
 	}
 	this->stripLeadingZeroes();
-- 
2.43.0


From 8f124863b95fecde7f8edb03b75061a6ebd7275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 019/151] fix: allow reversing the coefficients of the zero
 polynomial

---
 src/carl/core/UnivariatePolynomial.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 674b876..d2998b3 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -448,9 +448,7 @@ public:
 	UnivariatePolynomial reverseCoefficients() const {
 		UnivariatePolynomial<Coefficient> res(*this);
 		std::reverse(res.mCoefficients.begin(), res.mCoefficients.end());
-		while(carl::isZero(*std::prev(res.mCoefficients.end())) && std::prev(res.mCoefficients.end()) != res.mCoefficients.begin()) {
-			res.mCoefficients.erase(std::prev(res.mCoefficients.end()));
-		}
+		res.stripLeadingZeroes();
 		assert(res.isConsistent());
 		return res;
 	}
-- 
2.43.0


From 68075fe7af0d7faea7dd70ece19fe27be5ca401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 020/151] fix: drop leading coefficients that vanish modulo the
 modulus

---
 src/carl/core/UnivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 1b640d0..7096d8a 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -155,6 +155,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::mod(const
 	{
 		coeff = carl::mod(coeff, modulus);
 	}
+	this->stripLeadingZeroes();
 	return *this;
 }
 
-- 
2.43.0


From 30d80650eee4a22664ca6dbd972198e684b1c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:10 +0000
Subject: [PATCH 021/151] fix: stay within bounds when dividing integer
 univariate polynomials

---
 src/carl/core/polynomialfunctions/Division.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 81d9333..91aca25 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -197,11 +197,13 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 		DivisionResult<UnivariatePolynomial<Coeff>> result {UnivariatePolynomial<Coeff>(dividend.mainVar()), dividend};
 		if(carl::isZero(dividend)) return result;
 		assert(dividend == divisor * result.quotient + result.remainder);
+		if(divisor.degree() > dividend.degree()) return result;
 
 		std::vector<Coeff> coeffs(1+dividend.coefficients().size()-divisor.coefficients().size(), Coeff(0));
 
 		uint degdiff = dividend.degree() - divisor.degree();
 		for (std::size_t offset = 0; offset <= degdiff; offset++) {
+			if (dividend.degree()-offset >= result.remainder.coefficients().size()) continue;
 			Coeff factor = carl::quotient(result.remainder.coefficients()[dividend.degree()-offset], divisor.lcoeff());
 			result.remainder -= UnivariatePolynomial<Coeff>(dividend.mainVar(), factor, degdiff - offset) * divisor;
 			coeffs[degdiff-offset] += factor;
-- 
2.43.0


From 6654f50d9ff91378b68baf3f23a9304355fb5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:24 +0000
Subject: [PATCH 022/151] fix: subtract a univariate polynomial from a
 coefficient

---
 src/carl/core/UnivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 7096d8a..748dd5f 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -592,7 +592,7 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	return -(rhs - lhs);
 }
 
 template<typename Coefficient>
-- 
2.43.0


From e4b80de96cf3660cff1d0ef1187cd8fd3bad6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:24 +0000
Subject: [PATCH 023/151] fix: skip zero coefficients in the coprime factor of
 univariate polynomials

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 748dd5f..d2a4ec9 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -274,8 +274,10 @@ typename UnderlyingNumberType<Coeff>::type UnivariatePolynomial<Coeff>::coprimeF
 {
 	assert(!carl::isZero(*this));
 	auto it = mCoefficients.begin();
+	while (carl::isZero(*it)) ++it;
 	typename UnderlyingNumberType<Coeff>::type factor = it->coprimeFactor();
 	for (++it; it != mCoefficients.end(); ++it) {
+		if (carl::isZero(*it)) continue;
 		factor = carl::lcm(factor, it->coprimeFactor());
 	}
 	return factor;
-- 
2.43.0


From e847a3dbcad46c5a18cd656b9cd64e13254861d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:11 +0000
Subject: [PATCH 024/151] fix: convert the zero univariate polynomial to a
 multivariate one

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 8110018..697917b 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
-- 
2.43.0


From 8946dadfaad917c80e212000ca82f311f8c4a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 025/151] fix: canonicalise empty intervals built from a boost
 interval

---
 src/carl/interval/Interval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..25d5868 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -240,7 +240,7 @@ namespace carl
                     mLowerBoundType = BoundType::STRICT;
                     mUpperBoundType = BoundType::STRICT;
                 }
-                if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
+                else if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
                 {
                     mContent = BoostInterval(carl::constant_zero<Number>().get());
                     mLowerBoundType = BoundType::INFTY;
-- 
2.43.0


From 57367db85700ea6509d4ef64baffbca2213efe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 026/151] fix: take the bound types of a convex hull from the
 outer bounds

---
 src/carl/interval/Interval.tpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..5c385c9 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,9 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
-
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+	return Interval(
+		interval.lowerBound() < this->lowerBound() ? interval.lowerBound() : this->lowerBound(),
+		this->upperBound() < interval.upperBound() ? interval.upperBound() : this->upperBound());
 }
 
 /*******************************************************************************
-- 
2.43.0


From 60e35e83b10e083b4b1618819e54ee4631b64089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 027/151] fix: adding to an empty interval gives the empty
 interval

---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 5c385c9..93f94bd 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -375,7 +375,7 @@ Interval<Number> Interval<Number>::add(const Interval<Number>& rhs) const
 {
     assert(this->isConsistent());
     assert(rhs.isConsistent());
-	if (rhs.isEmpty()) return emptyInterval();
+	if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
     return Interval<Number>( mContent + rhs.content(),
                           getStrictestBoundType( mLowerBoundType, rhs.lowerBoundType() ),
                           getStrictestBoundType( mUpperBoundType, rhs.upperBoundType() ) );
-- 
2.43.0


From 25b4e2e967c4b21c3a7fa255ec068f85db72be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 028/151] fix: keep an attained bound when two products of
 interval bounds coincide

---
 src/carl/interval/Interval.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 93f94bd..66d0be3 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -436,6 +436,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         lowerA = lowerB;
                         lowerBoundType = getStrictestBoundType(xut, ylt);
                     }
+                    else if( lowerA == lowerB )
+                    {
+                        lowerBoundType = getWeakestBoundType(getStrictestBoundType(xlt, yut), getStrictestBoundType(xut, ylt));
+                    }
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
@@ -447,6 +451,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         upperA = upperB;
                         upperBoundType = getStrictestBoundType(xut, yut);
                     }
+                    else if( upperA == upperB )
+                    {
+                        upperBoundType = getWeakestBoundType(getStrictestBoundType(xlt, ylt), getStrictestBoundType(xut, yut));
+                    }
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
-- 
2.43.0


From 9240372a15df975a69c62c1568b7af3d1d6a5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 029/151] fix: compute interval quotients and reciprocals that
 contain all quotients

---
 src/carl/interval/Interval.tpp | 47 ++++++++++------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 66d0be3..6914403 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -610,36 +610,13 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		BoundType lowerBoundType = BoundType::WEAK;
-        BoundType upperBoundType = BoundType::WEAK;
-		///@todo Correctly determine if bounds are strict or weak.
-		if (this->isOpenInterval() || rhs.isOpenInterval()) {
-			// just a quick heuristic, by no means complete.
-            lowerBoundType = BoundType::STRICT;
-            upperBoundType = BoundType::STRICT;
-		}
-        const Number& xl = mContent.lower();
-        const Number& yl = rhs.lower();
-        const Number& yu = rhs.upper();
-        const BoundType& xlt = mLowerBoundType;
-        const BoundType& xut = mUpperBoundType;
-        const BoundType& ylt = rhs.lowerBoundType();
-        const BoundType& yut = rhs.upperBoundType();
-        if( (xlt == BoundType::INFTY && (carl::isPositive(yu) || yut == BoundType::INFTY))
-		   || (xut == BoundType::INFTY && (carl::isNegative(yl) || ylt == BoundType::INFTY))
-		   || (ylt == BoundType::INFTY && (carl::isPositive(xl) || xut == BoundType::INFTY))
-		   || (yut == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY))) )
-        {
-            lowerBoundType = BoundType::INFTY;
-        }
-        if( (xlt == BoundType::INFTY && (carl::isNegative(yu) || (carl::isNegative(yl) || ylt == BoundType::INFTY)))
-		   || (xut == BoundType::INFTY && (carl::isPositive(yl) || (carl::isPositive(yu) || yut == BoundType::INFTY)))
-		   || (ylt == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY)))
-		   || (yut == BoundType::INFTY && (carl::isPositive(xl) || (carl::isPositive(xl) || xut == BoundType::INFTY))) )
-        {
-            upperBoundType = BoundType::INFTY;
-        }
-        return Interval<Number>(BoostInterval( mContent/rhs.content() ), lowerBoundType, upperBoundType );
+		if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
+		// As rhs does not contain zero, its reciprocal is a single interval.
+		Interval<Number> a, b;
+		rhs.reciprocal(a, b);
+		Interval<Number> res = this->mul(a);
+		if (this->isUnbounded() || rhs.isUnbounded() || carl::isZero(rhs.lower()) || carl::isZero(rhs.upper())) return res;
+        return Interval<Number>(BoostInterval( mContent/rhs.content() ), res.lowerBoundType(), res.upperBoundType() );
 	}
 
 template<typename Number>
@@ -750,7 +727,7 @@ template<typename Number>
 bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) const {
         if( this->isInfinite() )
         {
-            a = emptyInterval();
+            a = unboundedInterval();
             return false;
         }
         else if( this->contains( carl::constant_zero<Number>().get() ) && mContent.lower() != carl::constant_zero<Number>().get() && mContent.upper() != carl::constant_zero<Number>().get() )
@@ -791,7 +768,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
         {
             if( mLowerBoundType == BoundType::INFTY && mContent.upper() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_one<Number>().get() / mContent.upper() , mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
+                a = Interval<Number>((BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.upper() )).lower(), mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
             }
             else if( mLowerBoundType == BoundType::INFTY && mContent.upper() == carl::constant_zero<Number>().get() )
             {
@@ -799,7 +776,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, carl::constant_one<Number>().get()  /  mContent.lower(), mLowerBoundType );
+                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() == carl::constant_zero<Number>().get() )
             {
@@ -817,6 +794,10 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             {
                 a = Interval<Number>(BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() ), BoundType::INFTY, mLowerBoundType );
             }
+            else
+            {
+                a = emptyInterval();
+            }
 
             return false;
         }
-- 
2.43.0


From 0a9c3aeead4f26d95e2a4512ce68134de2361130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 030/151] fix: absolute value of intervals that contain zero or
 touch it from below

---
 src/carl/interval/Interval.tpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 6914403..c7d423e 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -705,13 +705,13 @@ void Interval<Number>::inverse_assign()
         {
             if(this->contains(carl::constant_zero<Number>().get()))
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
-                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
+                UpperBound<Number> negated{-mContent.lower(), mLowerBoundType};
+                UpperBound<Number> max = upperBound() < negated ? negated : upperBound();
+                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max.number, max.bound_type );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            else if( this->isSemiNegative() ) // interval is fully negative
             {
-                return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
+                return this->inverse();
             }
             // otherwise inteval is already fully positive
             return *this;
-- 
2.43.0


From cba04f4a049bc3733c770e7b17baec41e70857d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 031/151] fix: powers of intervals with exponent zero or
 symmetric bounds

---
 src/carl/interval/power.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..96810e6 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -10,6 +10,8 @@ namespace carl {
 template<typename Number, typename Integer>
 Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 	assert(i.isConsistent());
+	if (i.isEmpty()) return i;
+	if (exp == 0) return Interval<Number>(carl::constant_one<Number>().get());
 	if (exp % 2 == 0) {
 		if (i.isInfinite()) {
 			return Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY);
@@ -30,6 +32,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (i.lower() != i.upper() && carl::abs(i.lower()) == carl::abs(i.upper())) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
-- 
2.43.0


From 856a26a6b35c135ce4bf964451dbf8e5148d2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 032/151] fix: shifting an empty or unbounded interval leaves
 it as it is

---
 src/carl/interval/operators.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..d91814d 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -305,6 +305,7 @@ inline Interval<Number>& operator+=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator+=(Interval<Number>& lhs, const Number& rhs) {
+	if (lhs.isEmpty() || lhs.isInfinite()) return lhs;
 	lhs.rContent() += rhs;
 	return lhs;
 }
@@ -372,6 +373,7 @@ inline Interval<Number>& operator-=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator-=(Interval<Number>& lhs, const Number& rhs) {
+	if (lhs.isEmpty() || lhs.isInfinite()) return lhs;
 	lhs.rContent() -= rhs;
 	return lhs;
 }
-- 
2.43.0


From 0b22fa7b8c73c67fcfc822b34f6d0a7b36f8506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 033/151] fix: scale the bound types of intervals along with
 the bounds

---
 src/carl/interval/operators.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index d91814d..8df25ce 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -397,7 +397,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
-	if (rhs >= 0) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>(rhs);
+	} else if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.upperBoundType(), lhs.lowerBoundType());
@@ -435,8 +437,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From 2f8fb7b1451020beb7c01dd82c5e48e113f1b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 034/151] fix: floor and ceil of open intervals attain their
 bounds

---
 src/carl/interval/Interval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 25d5868..7a38745 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -1541,7 +1541,8 @@ bool isOne(const Interval<Number>& i) {
     template<typename Number>
     inline Interval<Number> floor(const Interval<Number>& _in)
     {
-        return Interval<Number>(floor(_in.lower()), _in.lowerBoundType(), floor(_in.upper()), _in.upperBoundType());
+        if (_in.isEmpty()) return _in;
+        return Interval<Number>(floor(_in.lower()), getWeakestBoundType(_in.lowerBoundType(), BoundType::WEAK), floor(_in.upper()), getWeakestBoundType(_in.upperBoundType(), BoundType::WEAK));
     }
 
     /**
@@ -1553,7 +1554,8 @@ bool isOne(const Interval<Number>& i) {
     template<typename Number>
     inline Interval<Number> ceil(const Interval<Number>& _in)
     {
-        return Interval<Number>(ceil(_in.lower()), _in.lowerBoundType(), ceil(_in.upper()), _in.upperBoundType());
+        if (_in.isEmpty()) return _in;
+        return Interval<Number>(ceil(_in.lower()), getWeakestBoundType(_in.lowerBoundType(), BoundType::WEAK), ceil(_in.upper()), getWeakestBoundType(_in.upperBoundType(), BoundType::WEAK));
     }
 
 }
-- 
2.43.0


From 2dc2f35e173a7509709b2d26947d6834357c375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 035/151] fix: bloating a half-bounded interval keeps its
 canonical form

---
 src/carl/interval/Interval.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index c7d423e..5884915 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -244,9 +244,7 @@ template<typename Number>
 	if(!isInfinite()){
 	    BoundType lowerTmp = mLowerBoundType;
 	    BoundType upperTmp = mUpperBoundType;
-	    this->set(boost::numeric::widen(mContent, width));
-	    mLowerBoundType = lowerTmp;
-	    mUpperBoundType = upperTmp;
+	    *this = Interval<Number>(boost::numeric::widen(mContent, width), lowerTmp, upperTmp);
 	} else if (mLowerBoundType != BoundType::INFTY) {
 	    this->set(boost::numeric::widen(mContent, width));
 	    mUpperBoundType = BoundType::INFTY;
-- 
2.43.0


From 8353a986b66256b1f24be01e316615213806191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 036/151] fix: split half-bounded intervals at an inner point

---
 src/carl/interval/Interval.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 5884915..5ad0f6c 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -263,12 +263,11 @@ template<typename Number>
     template<typename Number>
     std::pair<Interval<Number>, Interval<Number>> Interval<Number>::split() const
     {
-	std::pair<BoostInterval, BoostInterval> bisection = boost::numeric::bisect(mContent);
 	if( this->isEmpty() || this->isPointInterval() )
 	{
 	    return std::pair<Interval<Number>, Interval<Number> >(Interval<Number>::emptyInterval(), Interval<Number>::emptyInterval());
 	}
-	return std::pair<Interval<Number>, Interval<Number> >(Interval(bisection.first, mLowerBoundType, BoundType::STRICT), Interval(bisection.second, BoundType::WEAK, mUpperBoundType));
+	return std::pair<Interval<Number>, Interval<Number> >(Interval(mContent.lower(), mLowerBoundType, carl::center(*this), BoundType::STRICT), Interval(carl::center(*this), BoundType::WEAK, mContent.upper(), mUpperBoundType));
     }
 
     template<typename Number>
-- 
2.43.0


From 35735d064f57cd49789d674bdb2bde02ee26e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 037/151] fix: the empty interval intersects no interval

---
 src/carl/interval/set_theory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..76a848f 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -116,6 +116,7 @@ Interval<Number> set_intersection(const Interval<Number>& lhs, const Interval<Nu
 
 template<typename Number>
 bool set_have_intersection(const Interval<Number>& lhs, const Interval<Number>& rhs) {
+	if (lhs.isEmpty() || rhs.isEmpty()) return false;
 	if (lhs.lowerBound() <= rhs.lowerBound() && rhs.lowerBound() <= lhs.upperBound()) return true;
 	if (rhs.lowerBound() <= lhs.lowerBound() && lhs.lowerBound() <= rhs.upperBound()) return true;
 	return false;
-- 
2.43.0


From e51a4c08e64d3b106084314c87b4d925b4887bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 038/151] fix: union with the empty interval

---
 src/carl/interval/set_theory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 76a848f..eba3560 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -188,6 +188,11 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From d6173ab61c728b17b74fa2a8ec4be2d4a2a73446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 039/151] fix: set difference of intervals with equal upper
 bounds

---
 src/carl/interval/set_theory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index eba3560..853094d 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -68,8 +68,9 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 		return false;
 	}
 	if (lhs.lowerBound() < rhs.lowerBound()) {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
@@ -77,7 +78,7 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 			return !resB.isEmpty();
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
-- 
2.43.0


From e0caaa7e117f6aa43b864cf889dc50dcd0ef038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 040/151] fix: symmetric difference of overlapping intervals

---
 src/carl/interval/set_theory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 853094d..d67fa60 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -170,8 +170,8 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 		resB = rhs;
 		return true;
 	} else {
-		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		Interval<Number> tmp, rest;
+		bool res = set_union(lhs, rhs, tmp, rest);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
-- 
2.43.0


From f2607af70d069ac485b265f9904e5638a5369b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 041/151] fix: respect open bounds in the Stern-Brocot sampling
 of intervals

---
 src/carl/interval/sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..0c18b3f 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -55,17 +55,19 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 	Int rightnum = carl::constant_one<Int>::get();
 	Int rightden = carl::constant_zero<Int>::get();
 	Number cur = Number(leftnum) / Number(leftden);
-	if (i.contains(cur)) {
+	bool lowerOk = includingBounds && i.lowerBoundType() == BoundType::WEAK;
+	bool upperOk = includingBounds && i.upperBoundType() == BoundType::WEAK;
+	if (i.contains(cur) && (includingBounds || i.isUnbounded() || (cur != i.lower() && cur != i.upper()))) {
 		return cur;
 	}
 	while (true) {
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if ((cur < i.lower()) || (!lowerOk && cur == i.lower())) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else if ((cur > i.upper()) || (!upperOk && cur == i.upper())) {
 			rightnum = curnum;
 			rightden = curden;
 		} else {
-- 
2.43.0


From 19dd5193c45634e95a8cce0863188b555b8a91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:47 +0000
Subject: [PATCH 042/151] fix: exclude zero from interval products if no factor
 can be zero

---
 src/carl/interval/Interval.tpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 5ad0f6c..ba76219 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -575,8 +575,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            lowerBoundType = BoundType::WEAK;
+        lowerBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     if( (xlt == BoundType::INFTY && (yu < carl::constant_zero<Number>().get() || (yl < carl::constant_zero<Number>().get() || ylt == BoundType::INFTY)))
        || (xut == BoundType::INFTY && (yl > carl::constant_zero<Number>().get() || (yu > carl::constant_zero<Number>().get() || yut == BoundType::INFTY)))
@@ -589,8 +588,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            upperBoundType = BoundType::WEAK;
+        upperBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     return Interval<Number>(std::move(resultInterval), lowerBoundType, upperBoundType );
 }
-- 
2.43.0


From b97b5f878d22631e5b41f8a6693241ad5ce59b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:41 +0000
Subject: [PATCH 043/151] fix: return one as the denominator of an integer

---
 src/carl/numbers/adaption_gmpxx/operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/adaption_gmpxx/operations.h b/src/carl/numbers/adaption_gmpxx/operations.h
index 4cbfc99..1e873a9 100644
--- a/src/carl/numbers/adaption_gmpxx/operations.h
+++ b/src/carl/numbers/adaption_gmpxx/operations.h
@@ -92,8 +92,8 @@ inline mpz_class getDenom(const mpq_class& n) {
 	return n.get_den();
 }
 
-inline mpz_class getDenom(const mpz_class& n) {
-	return n;
+inline mpz_class getDenom(const mpz_class&) {
+	return carl::constant_one<mpz_class>().get();
 }
 
 inline bool isInteger(const mpq_class& n) {
-- 
2.43.0


From 0aa5c446bc5735df02f054f71baf151da3fd93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:41 +0000
Subject: [PATCH 044/151] fix: reject a zero denominator when parsing rationals

---
 src/carl/numbers/parser/parser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/parser/parser.h b/src/carl/numbers/parser/parser.h
index fc29c59..d0c2ce5 100644
--- a/src/carl/numbers/parser/parser.h
+++ b/src/carl/numbers/parser/parser.h
@@ -111,13 +111,15 @@ namespace parser {
 	template<typename T, typename Iterator = std::string::const_iterator>
 	struct RationalParser: public qi::grammar<Iterator, T(), Skipper> {
 		RationalParser(): RationalParser::base_type(main, "rational") {
-			main = (number >> -(qi::lit('/') >> number))[qi::_val = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2)];
+			main = (number >> -(qi::lit('/') >> number))[qi::_pass = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2, qi::_val)];
 		}
 		DecimalParser<T> number;
 		qi::rule<Iterator, T(), Skipper> main;
-		T makeRational(const T& a, const boost::optional<T>& b) const {
-			if (!b) return a;
-			return a / *b;
+		/// Computes a / b, fails if b is zero.
+		bool makeRational(const T& a, const boost::optional<T>& b, T& result) const {
+			if (b && carl::isZero(*b)) return false;
+			result = b ? T(a / *b) : a;
+			return true;
 		}
 	};
 	
-- 
2.43.0


From 5572921c8e2920a753874189316b7f7a925246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:41 +0000
Subject: [PATCH 045/151] fix: symmetric modulo of negative numbers and even
 moduli

---
 src/carl/numbers/GaloisField.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..52ffd3a 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -48,7 +48,7 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
+		mPK(carl::pow(IntegerType(p),k)),
 		mMaxValue((mPK-1)/2),
 		mModulus(mMaxValue+1)
 	{ 
@@ -79,11 +79,10 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
-		}
+		IntegerType res = carl::mod(n, mPK);
+		if (res < 0) res += mPK;
+		if (res > mPK/2) res -= mPK;
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From 3878b36e158c630f29c1daacdb302cd4f2c6fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:41 +0000
Subject: [PATCH 046/151] fix: keep finite field numbers reduced in compound
 assignments

---
 src/carl/numbers/GFNumber.h   |  7 ++-----
 src/carl/numbers/GFNumber.tpp | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..d7a8c93 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -32,8 +32,7 @@ class GFNumber
 	}
 	
 	GFNumber(const GFNumber& n, const GaloisField<IntegerType>* gf):
-		mN(n.mN),
-		mGf(gf)
+		GFNumber(n.mN, gf)
 	{
 	}
 
@@ -49,9 +48,7 @@ class GFNumber
 	
 	void normalize()
 	{
-		if(isZero() || isUnit()) return;
-		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		if (mGf != nullptr) mN = mGf->modulo(mN);
 	}
 	
 	bool isZero() const
diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..0337626 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	normalize();
 	return *this;
 }
 
@@ -159,6 +162,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	normalize();
 	return *this;
 }
 
@@ -170,6 +174,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -177,6 +182,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	normalize();
 	return *this;
 }
 
@@ -201,8 +207,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -210,6 +220,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	normalize();
 	return *this;
 }
 
@@ -227,8 +238,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
 	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
-	return *this;
+	return *this = *this / rhs;
 }
 
 }
-- 
2.43.0


From 5580ffdc66998be004316406bff168c01faca697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:41 +0000
Subject: [PATCH 047/151] fix: compare finite field numbers with integers
 modulo the field size

---
 src/carl/numbers/GFNumber.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index 0337626..95f7190 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -38,7 +38,7 @@ template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, const IntegerT& rhs)
 {
 	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
@@ -50,10 +50,8 @@ bool operator==(const GFNumber<IntegerT>& lhs, int rhs)
 {
 	if(lhs.isZero() && rhs == 0) return true;
 	if(lhs.isUnit() && rhs == 1) return true;
-	if(lhs.isZero() && rhs != 0) return false;
-	if(lhs.isUnit() && rhs != 1) return false;
-	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	if(lhs.mGf == nullptr) return lhs.mN == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(int lhs, const GFNumber<IntegerT>& rhs)
-- 
2.43.0


From e4b5f9e6497630c62d9edc2ee36d911d65359d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:50 +0000
Subject: [PATCH 048/151] fix: adopt the field when subtracting a zero of a
 finite field

---
 src/carl/numbers/GFNumber.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index 95f7190..fc1a186 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -167,7 +167,6 @@ GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 {
-	if (rhs.isZero()) return *this;
 	if (mGf == nullptr) {
 		mGf = rhs.mGf;
 	}
-- 
2.43.0


From 07f552f566d6ab6eaa4c98ee638a037c1bb2b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:32 +0000
Subject: [PATCH 049/151] fix: signed remainder of two negative bit vectors

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..3494a1c 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
-- 
2.43.0


From d7504a5fb97566d9591ba00a5ebdd0f92d32a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:32 +0000
Subject: [PATCH 050/151] fix: signed modulo of a positive by a negative bit
 vector

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 3494a1c..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From b02a91cb133498fa3d1e75cb547e441fa2da5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:32 +0000
Subject: [PATCH 051/151] fix: signed division of a non-negative bit vector by
 zero

---
 src/carl/formula/bitvector/BVTermPool.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/formula/bitvector/BVTermPool.cpp b/src/carl/formula/bitvector/BVTermPool.cpp
index 3f52409..1151718 100644
--- a/src/carl/formula/bitvector/BVTermPool.cpp
+++ b/src/carl/formula/bitvector/BVTermPool.cpp
@@ -70,15 +70,12 @@ namespace carl
 					return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 				case BVTermType::DIV_S:
 					if (_first.isConstant()) {
-						if (_first.value().isZero()) {
-							// Zero -> 1
-							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
-						} else if (_first.value()[_first.width()-1]) {
+						if (_first.value()[_first.width()-1]) {
 							// Negative -> 1
 							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
 						} else {
-							// Positive -> _first
-							return _first.mpContent;
+							// Zero or positive -> #b111...
+							return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 						}
 					}
 					break;
-- 
2.43.0


From 4afea74653cc3b5fde237b6d6815354425a08af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 052/151] fix: fill a growing Bitset with its default value

---
 src/carl/util/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..c67ddf5 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
-- 
2.43.0


From cd9973372fde221bbcd7db6bef47ca6cf5b423a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 053/151] fix: combine the defaults in compound assignments of
 Bitset

---
 src/carl/util/Bitset.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index c67ddf5..f58b336 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -118,21 +118,23 @@ namespace carl {
 		
 		/// Sets all bits to false that are true in rhs.
 		Bitset& operator-=(const Bitset& rhs) {
-			assert(mDefault == rhs.mDefault);
 			alignSize(*this, rhs);
 			mData -= rhs.mData;
+			mDefault = mDefault && !rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise and with rhs.
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
-- 
2.43.0


From 8dafe82e374f10ade7818ecd4e74ae5b53c890ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 054/151] fix: order and hash bitsets independently of their
 stored size

---
 src/carl/util/Bitset.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index f58b336..d149f83 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -231,11 +231,9 @@ namespace carl {
 		}
 		/// Compares lhs and rhs according to some order.
 		friend bool operator<(const Bitset& lhs, const Bitset& rhs) {
-			if (lhs.size() < rhs.size()) {
-				return true;
-			}
-			if (lhs.size() > rhs.size()) {
-				return false;
+			alignSize(lhs, rhs);
+			if (lhs.mDefault != rhs.mDefault) {
+				return rhs.mDefault;
 			}
 			return lhs.mData < rhs.mData;
 		}
@@ -267,7 +265,12 @@ namespace std {
 template<>
 struct hash<carl::Bitset> {
 	std::size_t operator()(const carl::Bitset& bs) const {
-		return std::hash<carl::Bitset::BaseType>()(bs.mData);
+		// Equal bitsets may store different numbers of trailing default bits.
+		std::size_t size = bs.mData.size();
+		while (size > 0 && bs.mData.test(size - 1) == bs.mDefault) --size;
+		carl::Bitset::BaseType data(bs.mData);
+		data.resize(size);
+		return std::hash<carl::Bitset::BaseType>()(data);
 	}
 };
 
-- 
2.43.0


From bdc602ff7f18ecceab985a13a4d6e1a85f626a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 055/151] fix: ignore trailing zero words when comparing bit
 vectors

---
 src/carl/util/BitVector.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/BitVector.cpp b/src/carl/util/BitVector.cpp
index 4c1e8cf..7fef0fb 100644
--- a/src/carl/util/BitVector.cpp
+++ b/src/carl/util/BitVector.cpp
@@ -36,7 +36,13 @@ BitVector operator|(const BitVector& lhs, const BitVector& rhs)
 
 bool operator ==(const BitVector& lhs, const BitVector& rhs)
 {
-    return(lhs.mBits == rhs.mBits);
+    const auto& longer = lhs.mBits.size() < rhs.mBits.size() ? rhs.mBits : lhs.mBits;
+    const auto& shorter = lhs.mBits.size() < rhs.mBits.size() ? lhs.mBits : rhs.mBits;
+    for (std::size_t i = 0; i < longer.size(); ++i)
+    {
+        if (longer[i] != (i < shorter.size() ? shorter[i] : 0)) return false;
+    }
+    return true;
 }
 
 bool operator ==(const BitVector::forward_iterator& fi1, const BitVector::forward_iterator& fi2)
@@ -71,6 +77,7 @@ bool BitVector::subsetOf( const BitVector& superset)
     while( sub != mBits.end())
     {
         if( *sub != 0) return false;
+        ++sub;
     }
     return true;
 }
-- 
2.43.0


From 2374acfb5790978ad766408c3b85236832c2b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 056/151] fix: keep the bits when reserving space in a
 BitVector

---
 src/carl/util/BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/BitVector.h b/src/carl/util/BitVector.h
index 03294d6..7543bf8 100644
--- a/src/carl/util/BitVector.h
+++ b/src/carl/util/BitVector.h
@@ -34,7 +34,7 @@ namespace carl
 		}
 		
 		void reserve(size_t capacity) {
-			mBits.resize(capacity);
+			mBits.reserve(capacity);
 		}
 		
         bool empty() const
-- 
2.43.0


From e17c0683b7535dbc02c6df6cec5c685ae1b1f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 057/151] fix: make Heap::getCopy terminate and return the
 entries

---
 src/carl/util/CompactTree.h | 1 +
 src/carl/util/Heap.h        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/CompactTree.h b/src/carl/util/CompactTree.h
index 6e3a9c2..c79d1a6 100644
--- a/src/carl/util/CompactTree.h
+++ b/src/carl/util/CompactTree.h
@@ -179,6 +179,7 @@ namespace carl
                 while( it <= _lastLeaf )
                 {
                     ret.push_back( (*this)[it] );
+                    ++it;
                 }
                 return ret;
             }
diff --git a/src/carl/util/Heap.h b/src/carl/util/Heap.h
index 50fdc24..8179b9e 100644
--- a/src/carl/util/Heap.h
+++ b/src/carl/util/Heap.h
@@ -91,7 +91,7 @@ namespace carl
 
             std::vector<Entry> getCopy() const
             {
-                _tree.getCopy();
+                return _tree.getCopy();
             }
 
             void print( std::ostream& out = std::cout ) const;
-- 
2.43.0


From a2573c16ed1ff528e99ca5bb044ed6fc34505209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 058/151] fix: do not duplicate references when updating a
 cache entry

---
 src/carl/util/Cache.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index 939c03f..e5f0f5d 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -73,7 +73,6 @@ namespace carl
                 Info& info = (*retB.first)->second;
                 assert( info.refStoragePositions.size() > 0);
                 assert( info.refStoragePositions.front() > 0 );
-                info.refStoragePositions.insert( info.refStoragePositions.end(), element->second.refStoragePositions.begin(), element->second.refStoragePositions.end() );
                 return std::make_pair( info.refStoragePositions.front(), false );
             }
             else
-- 
2.43.0


From 6bf61b0312c6fa36897ab930b5adf0cc5d99fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 059/151] fix: return a valid position from tree::erase

---
 src/carl/util/carlTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index dd16e4b..fb80f0c 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -874,9 +874,10 @@ public:
 		std::size_t id = position.current;
 		if (id == 0) {
 			clear();
-			++position;
+			position.current = MAXINT;
 			return position;
 		}
+		eraseChildren(id);
 		++position;
 		if (nodes[id].nextSibling != MAXINT) {
 			nodes[nodes[id].nextSibling].previousSibling = nodes[id].previousSibling;
-- 
2.43.0


From b2ed7b3fe4a30f2c8eb24dc3895a5c8812253965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 060/151] fix: iterate over an empty tree without reading
 beyond its nodes

---
 src/carl/util/carlTree.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index fb80f0c..91647ca 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -607,12 +607,13 @@ public:
 	}
 
 	PreorderIterator<false> begin_preorder() const {
-		return PreorderIterator<false>(this, 0);
+		return PreorderIterator<false>(this, nodes.empty() ? MAXINT : 0);
 	}
 	PreorderIterator<false> end_preorder() const {
 		return PreorderIterator<false>(this);
 	}
 	PreorderIterator<true> rbegin_preorder() const {
+		if (nodes.empty()) return rend_preorder();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return PreorderIterator<true>(this, cur);
@@ -621,6 +622,7 @@ public:
 		return PreorderIterator<true>(this);
 	}
 	PostorderIterator<false> begin_postorder() const {
+		if (nodes.empty()) return end_postorder();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return PostorderIterator<false>(this, cur);
@@ -629,12 +631,13 @@ public:
 		return PostorderIterator<false>(this);
 	}
 	PostorderIterator<true> rbegin_postorder() const {
-		return PostorderIterator<true>(this, 0);
+		return PostorderIterator<true>(this, nodes.empty() ? MAXINT : 0);
 	}
 	PostorderIterator<true> rend_postorder() const {
 		return PostorderIterator<true>(this);
 	}
 	LeafIterator<false> begin_leaf() const {
+		if (nodes.empty()) return end_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return LeafIterator<false>(this, cur);
@@ -643,6 +646,7 @@ public:
 		return LeafIterator<false>(this);
 	}
 	LeafIterator<true> rbegin_leaf() const {
+		if (nodes.empty()) return rend_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return LeafIterator<true>(this, cur);
-- 
2.43.0


From f22abdb611e4d8a619591a0a2e7d0c3c6ec64db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 061/151] fix: iterate backwards with tree::rbegin

---
 src/carl/util/carlTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index 91647ca..d8f76aa 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -599,10 +599,10 @@ public:
 	iterator end() const {
 		return end_preorder();
 	}
-	iterator rbegin() const {
+	PreorderIterator<true> rbegin() const {
 		return rbegin_preorder();
 	}
-	iterator rend() const {
+	PreorderIterator<true> rend() const {
 		return rend_preorder();
 	}
 
-- 
2.43.0


From b02f419b50484ff0ec873f397150c8bff4e50ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 062/151] fix: decrement depth iterators of a tree in the right
 direction

---
 src/carl/util/carlTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index d8f76aa..ee1b6ce 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -393,7 +393,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PreorderIterator<T,reverse> it(this->mTree, this->curnode().nextSibling);
+			PreorderIterator<T,false> it(this->mTree, this->curnode().nextSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
@@ -412,7 +412,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PostorderIterator<T,reverse> it(this->mTree, this->curnode().previousSibling);
+			PostorderIterator<T,true> it(this->mTree, this->curnode().previousSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
-- 
2.43.0


From 14127869559461b8c97274f5d00cd1e3e058f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 063/151] fix: return the previous position from postfix tree
 iterator operators

---
 src/carl/util/carlTree.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index ee1b6ce..625b669 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -131,11 +131,15 @@ typename std::enable_if<reverse,I>::type& operator++(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->next();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type& operator--(BaseIterator<T,I,reverse>& it) {
@@ -147,11 +151,15 @@ typename std::enable_if<reverse,I>::type& operator--(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->next();
+	return res;
 }
 
 
-- 
2.43.0


From 4eb3697af8f510f772bcbf3f38679e7e84a799a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:55 +0000
Subject: [PATCH 064/151] fix: let the trivial set cover heuristic accept a
 problem without sets

---
 src/carl-covering/heuristics/trivial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd91cfc 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,9 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) {
+		result.set_interval(0, sc.set_count() - 1);
+	}
 	return result;
 }
 
-- 
2.43.0


From a266d83b5b8368a9a9d7d5e8a48aa53325c58d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:36 +0000
Subject: [PATCH 065/151] fix: keep all persistent variables when clearing the
 variable pool

Persistent variables were stored by their id, which is only unique for
variables of one type. Gaps were restored as fresh Boolean variables.
---
 src/carl/core/VariablePool.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index a6879fc..20b9db0 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -39,16 +39,13 @@ Variable VariablePool::getFreshVariable(const std::string& name, VariableType ty
 
 Variable VariablePool::getFreshPersistentVariable(VariableType type) noexcept {
 	Variable res = getFreshVariable(type);
-	if (res.id() >= mPersistentVariables.size()) {
-		mPersistentVariables.resize(res.id()+1, std::make_pair(Variable::NO_VARIABLE, ""));
-	}
-	mPersistentVariables[res.id()] = std::make_pair(res, "");
+	mPersistentVariables.emplace_back(res, "");
 	return res;
 }
 
 Variable VariablePool::getFreshPersistentVariable(const std::string& name, VariableType type) {
 	Variable res = getFreshPersistentVariable(type);
-	mPersistentVariables[res.id()] = std::make_pair(res, name);
+	mPersistentVariables.back().second = name;
 	setName(res, name);
 	return res;
 }
-- 
2.43.0


From fe47b89eea93fbb6c52fc7c1a8bbbc0c470f2f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:36 +0000
Subject: [PATCH 066/151] fix: keep the indices of a sort when replacing its
 parameters

---
 src/carl/formula/SortManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index efbdaf1..ca3fd84 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -48,7 +48,9 @@ Sort SortManager::replace(const Sort& sort, const std::map<std::string, Sort>& p
 	v.reserve(sc.parameters->size());
 	for (const auto& sd : *sc.parameters)
 		v.push_back(replace(sd, parameters));
-	return getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	Sort res = getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	if (sc.indices == nullptr) return res;
+	return index(res, *sc.indices);
 }
 
 bool SortManager::declare(const std::string& name, std::size_t arity) {
-- 
2.43.0


From dbb26e154fd76e489509f967509cf5a8167fa3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:36 +0000
Subject: [PATCH 067/151] fix: expand sort definitions without parameters

---
 src/carl/formula/SortManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index ca3fd84..10183d9 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -100,6 +100,8 @@ Sort SortManager::getSort(const std::string& name) {
 	// Find an instantiation of the given sort template.
 	auto it = mSortMap.find(sc.get());
 	if (it == mSortMap.end()) {
+		auto def = mDefinitions.find(name);
+		if (def != mDefinitions.end() && def->second.first.empty()) return def->second.second;
 		CARL_LOG_ERROR("carl.formula", "The sort " << name << " has not been declared or defined.");
 		return Sort(0);
 	}
-- 
2.43.0


From e44818469595841eac095a6206351876fb016b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:40 +0000
Subject: [PATCH 068/151] fix: make the reduced Groebner basis monic

reduceGB discarded the result of normalize(), so reduced generators could
have a leading coefficient other than one.
---
 src/carl/groebner/GBProcedure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index 2f2e50d..dbacde8 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -292,7 +292,7 @@ private:
 			Polynomial res = reduct.fullReduce();
             if(!isZero(res))
             {
-                res.normalize();
+                res = res.normalize();
                 CARL_LOG_DEBUG("carl.gb.gbproc", "GB Reduction, reduced " << mGb->getGenerator(*index) << " to " << res);
                 reduced->addGenerator(res);
             }
-- 
2.43.0


From 410eb2a0bd11fb919387e55fd8cfae08e2c3b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:40 +0000
Subject: [PATCH 069/151] fix: normalize polynomials added to a Groebner basis

The S-polynomial expects leading coefficients of one, so the calculation
asserted on input polynomials which are not monic.
---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index b7daad0..3693097 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -48,7 +48,7 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	bool foundGB = false;
 	for(const Polynomial& newPol : scheduledForAdding)
 	{
-		if(addToGb(newPol))
+		if(addToGb(newPol.normalize()))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
 			foundGB = true;
-- 
2.43.0


From c40ee6a9a649f46da1ebb7f356ca911d5f26814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:40 +0000
Subject: [PATCH 070/151] fix: ignore the zero polynomial in Groebner basis
 computations

The zero polynomial counts as constant, hence adding it made the basis
{1}; reducing the input with it asserted.
---
 src/carl/groebner/GBProcedure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index dbacde8..5d07ec3 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -115,7 +115,7 @@ public:
      */
 	void addPolynomial(const Polynomial& p)
 	{
-		mInputScheduled.push_back(p);
+		if(!isZero(p)) mInputScheduled.push_back(p);
 		mOrigGenerators.push_back(p);
 	}
 
-- 
2.43.0


From 2c6eac1e912a06defa3539e0d4c685afde9e1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:40 +0000
Subject: [PATCH 071/151] fix: drop critical pairs when the Groebner basis
 becomes constant

The pairs left behind referred to removed generators, and adding further
polynomials to a constant basis dereferenced its empty leading monomial.
---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index 3693097..4c0aeea 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -40,6 +40,8 @@ template<class Polynomial, template<typename> class AddingPolicy>
 void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>& scheduledForAdding)
 {
 	CARL_LOG_INFO("carl.gb.buchberger", "Calculate gb");
+	// Nothing can be added to the whole ring.
+	if(pGb->isConstant()) return;
 	for(unsigned i = 0; i < pGb->getGenerators().size(); ++i)
 	{
 		mGbElementsIndices.push_back(i);
@@ -98,6 +100,11 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 			}
 		}
 	}
+	// If the basis became constant, the remaining pairs refer to generators which are gone.
+	while(!pCritPairs->empty())
+	{
+		pCritPairs->pop();
+	}
 	mGbElementsIndices.clear();
 }
 
-- 
2.43.0


From 0cb925ca0e077afa616e2886b7172bec80d5fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:40 +0000
Subject: [PATCH 072/151] fix: rebuild the divisor lookup when eliminated
 generators are removed

Removing generators shifts the indices, but the lookup kept the old ones.
---
 src/carl/groebner/Ideal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/Ideal.h b/src/carl/groebner/Ideal.h
index 1ead321..8d96bad 100644
--- a/src/carl/groebner/Ideal.h
+++ b/src/carl/groebner/Ideal.h
@@ -139,7 +139,7 @@ public:
         }
         tempGen.swap(mGenerators);
         mEliminated.clear();
-
+        mDivisorLookup.reset();
     }
 	
 	void clear()
-- 
2.43.0


From c8b87a4c65ebb541fb04af37070d5f6aa2929901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:06 +0000
Subject: [PATCH 073/151] fix: compare constraints without variables

compare() asked for the coprime factor of the non-constant part even if the
left-hand side has none, which fails an assertion.
---
 src/carl/formula/Constraint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/Constraint.h b/src/carl/formula/Constraint.h
index d3ab7ee..24da616 100644
--- a/src/carl/formula/Constraint.h
+++ b/src/carl/formula/Constraint.h
@@ -723,6 +723,8 @@ namespace carl
          *                   a_i = g * b_i for all 1<=i<=k 
          *              or   b_i = g * a_i for all 1<=i<=k 
          */
+        if( _constraintA.lhs().isConstant() || _constraintB.lhs().isConstant() )
+            return _constraintA == _constraintB ? A_IFF_B : 0;
         typename Pol::NumberType one_divided_by_a = _constraintA.lhs().coprimeFactorWithoutConstant();
         typename Pol::NumberType one_divided_by_b = _constraintB.lhs().coprimeFactorWithoutConstant();
         typename Pol::NumberType c = _constraintA.lhs().constantPart();
-- 
2.43.0


From 500fc68cb32d9a99e63c79b40a8ee587c803dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:06 +0000
Subject: [PATCH 074/151] fix: do not report finitely many solutions for every
 occurring variable

hasFinitelyManySolutionsIn() returned true as soon as the variable occurs in
the constraint, for instance for x < 0, and also for variables that do not
occur in a univariate equation.
---
 src/carl/formula/Constraint.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/formula/Constraint.tpp b/src/carl/formula/Constraint.tpp
index 18c76fb..762fec4 100644
--- a/src/carl/formula/Constraint.tpp
+++ b/src/carl/formula/Constraint.tpp
@@ -422,8 +422,8 @@ namespace carl
     template<typename Pol>
     bool Constraint<Pol>::hasFinitelyManySolutionsIn( const Variable& _var ) const
     {
-        if( variables().has( _var ))
-            return true;
+        if( !variables().has( _var ))
+            return false;
         if( relation() == Relation::EQ )
         {
             if( variables().size() == 1 )
-- 
2.43.0


From 74197f62d63c115bf5bd82b3019c3ffe3e70b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:49 +0000
Subject: [PATCH 075/151] fix: add the inverse of the coprime factor to the
 factorization

When the remainder without rational roots was made coprime, the factor it was
multiplied with was added to the factors, instead of its inverse, unless there
already was a constant factor. The factors did not multiply back to the input,
for example for 2x^3-x^2+2x-1. The check for a constant factor also looked at
the first factor when there was none.
---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index c746554..eefad95 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -278,9 +278,9 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 							result *= factor;
 							CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << UnivariatePolynomial<Coeff>(result.mainVar(), std::initializer_list<Coeff>({(Coeff)1/factor})) << ")^" << 1 );
 							// Add the constant factor to the factors.
-							if( is_constant(linearFactors.begin()->first) )
+							factor = Coeff(1) / factor;
+							if( !linearFactors.empty() && is_constant(linearFactors.begin()->first) )
 							{
-								factor = Coeff(1) / factor;
 								factor *= linearFactors.begin()->first.lcoeff();
 								linearFactors.erase(linearFactors.begin());
 							}
-- 
2.43.0


From 6f6205e867369390167a7c9dcd9fcfa0cb9f00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:49 +0000
Subject: [PATCH 076/151] fix: do not list 1 as a factor of c*x^n

If nothing but a constant remains after x^n is split off, the remainder 1 was
added to the factors, next to the constant c.
---
 .../polynomialfunctions/Factorization_univariate.h    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index eefad95..9f0c5ca 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -310,11 +310,14 @@ LinearFactorRemains:
 		}
 		linearFactors.insert(linearFactors.begin(), std::pair<UnivariatePolynomial<Coeff>, uint>(UnivariatePolynomial<Coeff>(result.mainVar(), factor), 1));
 	}
-	auto retVal = linearFactors.emplace(result, 1);
-	CARL_LOG_TRACE("carl.core.upoly", "UnivELF: add the factor (" << result << ")^" << 1 );
-	if(!retVal.second)
+	if(!is_constant(result))
 	{
-		++retVal.first->second;
+		auto retVal = linearFactors.emplace(result, 1);
+		CARL_LOG_TRACE("carl.core.upoly", "UnivELF: add the factor (" << result << ")^" << 1 );
+		if(!retVal.second)
+		{
+			++retVal.first->second;
+		}
 	}
 	return UnivariatePolynomial<Coeff>(result.mainVar(), Coeff(1));
 }
-- 
2.43.0


From a1fb26fa3219e080edfb2b0bed595b5ef9c9f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:49 +0000
Subject: [PATCH 077/151] fix: consider negative rational zeros when splitting
 off linear factors

After an integer was found not to be a zero, an iterator was compared to the
end of a vector that had been extended meanwhile. The negative candidate was
skipped, and so x+1 was not split off -x^3-2x^2+1. The test whether a candidate
is compatible with the values found so far did not depend on the sign of the
candidate either.
---
 .../Factorization_univariate.h                | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index 9f0c5ca..a5befc9 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -146,34 +146,21 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 			CARL_LOG_TRACE("carl.core.upoly", "UnivELF: try rational  " << (positive ? "-" : "") << *tcFactor << "/" << *lcFactor);
 			// Check whether the numerator of the rational to consider divides the trailing coefficient of all
 			// zero-preserving shifts {result(x+x_0) | for some found x_0 with result(x_0)!=0 and x_0 integer}
-			auto shiftedTc = shiftedTcs.begin();
-			for(; shiftedTc != shiftedTcs.end(); ++shiftedTc)
+			bool possibleZero = true;
+			for(const auto& shiftedTc : shiftedTcs)
 			{
 				// we need to be careful with overflows in the following lines
-				if(maxInt/(*lcFactor) >= shiftedTc->first)
+				if(maxInt/(*lcFactor) >= (shiftedTc.first < 0 ? -shiftedTc.first : shiftedTc.first))
 				{
-					Integer divisor = (*lcFactor) * shiftedTc->first;
-					if( divisor != *tcFactor )
+					Integer divisor = (positive ? *tcFactor : -(*tcFactor)) - (*lcFactor) * shiftedTc.first;
+					if(divisor != 0 && carl::mod(shiftedTc.second, divisor < 0 ? -divisor : divisor) != 0)
 					{
-						if( !(divisor < 0 && *tcFactor < 0 && maxInt + divisor >= -(*tcFactor)) && !(divisor > 0 && *tcFactor > 0 && maxInt - divisor >= *tcFactor ) )
-						{
-							if( divisor > *tcFactor )
-							{
-								divisor = divisor - *tcFactor;
-							}
-							else
-							{
-								divisor = *tcFactor - divisor;
-							}
-							if(carl::mod(shiftedTc->second, divisor) != 0)
-							{
-								break;
-							}
-						}
-					}	
+						possibleZero = false;
+						break;
+					}
 				}
 			}
-			if(shiftedTc == shiftedTcs.end())
+			if(possibleZero)
 			{
 				Coeff posRatZero = carl::fromInt<typename IntegralType<Coeff>::type>(*tcFactor) / carl::fromInt<typename IntegralType<Coeff>::type>(*lcFactor);
 				if (!positive) posRatZero = -posRatZero;
@@ -211,7 +198,7 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 				}
 			}
 			// Find the next numerator-denominator combination.
-			if(shiftedTc == shiftedTcs.end() && positive)
+			if(positive)
 			{
 				positive = false;
 			}
-- 
2.43.0


From f667c28c9afc5614ee6a3d25e26a0556b4d554ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:36 +0000
Subject: [PATCH 078/151] fix: consider all divisors when splitting off linear
 factors

The outer coefficients themselves were not considered as divisors. Linear
factors like 3x+1 of 3x^3+x^2+3x+1 or x-2 of -x^3+x^2+3x-2 were not found.
---
 .../Factorization_univariate.h                | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index a5befc9..e84d795 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -211,23 +211,20 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 				}
 				else
 				{
-					lcFactors.push_back(lcFactors.back());
-					while(lcFactors.back() <= halfOfLcAsInt)
+					if(lcFactors.back() == lcAsInt)
 					{
-						++lcFactors.back();
-						if(carl::mod(lcAsInt, lcFactors.back()) == 0)
-						{
-							break;
-						}
-					}
-					if(lcFactors.back() > halfOfLcAsInt)
-					{
-						lcFactors.pop_back();
 						lcFactorsFound = true;
 						lcFactor = lcFactors.end();
 					}
 					else
 					{
+						Integer next = lcFactors.back() + 1;
+						while(next <= halfOfLcAsInt && carl::mod(lcAsInt, next) != 0)
+						{
+							++next;
+						}
+						// There is no divisor between the half and the number itself.
+						lcFactors.push_back(next > halfOfLcAsInt ? lcAsInt : next);
 						lcFactor = --(lcFactors.end());
 					}
 				}
@@ -239,22 +236,19 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 					}
 					else
 					{
-						tcFactors.push_back(tcFactors.back());
-						while(tcFactors.back() <= halfOfTcAsInt)
+						if(tcFactors.back() == tcAsInt)
 						{
-							++(tcFactors.back());
-							if(carl::mod(tcAsInt, tcFactors.back()) == 0)
-							{
-								break;
-							}
-						}
-						if(tcFactors.back() > halfOfTcAsInt)
-						{
-							tcFactors.pop_back();
 							tcFactor = tcFactors.end();
 						}
 						else
 						{
+							Integer next = tcFactors.back() + 1;
+							while(next <= halfOfTcAsInt && carl::mod(tcAsInt, next) != 0)
+							{
+								++next;
+							}
+							// There is no divisor between the half and the number itself.
+							tcFactors.push_back(next > halfOfTcAsInt ? tcAsInt : next);
 							tcFactor = --(tcFactors.end());
 						}
 					}
-- 
2.43.0


From 60cd3963e9e963765a772cfe9c8415e3660328af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:27 +0000
Subject: [PATCH 079/151] fix: do not truncate rational candidates when
 splitting off linear factors

The quotient of the divisors was computed with integers, so that only integral
zeros were found.
---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index e84d795..b80ecb1 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -162,7 +162,7 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 			}
 			if(possibleZero)
 			{
-				Coeff posRatZero = carl::fromInt<typename IntegralType<Coeff>::type>(*tcFactor) / carl::fromInt<typename IntegralType<Coeff>::type>(*lcFactor);
+				Coeff posRatZero = Coeff(carl::fromInt<typename IntegralType<Coeff>::type>(*tcFactor)) / Coeff(carl::fromInt<typename IntegralType<Coeff>::type>(*lcFactor));
 				if (!positive) posRatZero = -posRatZero;
 				CARL_LOG_TRACE("carl.core.upoly", "UnivELF: consider possible non zero rational factor  " << posRatZero);
 				Coeff image = result.syntheticDivision(posRatZero);
-- 
2.43.0


From bf207ca54964933f47febbc9adee312edc01dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:27 +0000
Subject: [PATCH 080/151] fix: keep the constant factor of the square free
 factorization

The square free factorization determines the factors only up to a constant.
The factors of -(2x^2+x+3)^2 did not multiply back to this polynomial.
---
 .../Factorization_univariate.h                | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index b80ecb1..4131b0c 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -344,17 +344,13 @@ FactorMap<Coeff> factorization(const UnivariatePolynomial<Coeff>& p) {
 		CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: Calculating square-free factorization of " << remainingPoly);
 		// Calculate the square free factorization.
 		auto sff = carl::squareFreeFactorization(remainingPoly);
-//		factor = (Coeff) 1;
+		// The square free factorization is only correct up to a constant.
+		factor = remainingPoly.lcoeff();
 		for(auto expFactorPair = sff.begin(); expFactorPair != sff.end(); ++expFactorPair)
 		{
-//			Coeff cpf = expFactorPair->second.coprimeFactor();
-//			if(cpf != (Coeff) 1)
-//			{
-//				factor *= pow(expFactorPair->second.coprimeFactor(), expFactorPair->first);
-//				expFactorPair->second /= cpf;
-//			}
-			if(!is_constant(expFactorPair->second) || !carl::isOne(expFactorPair->second.lcoeff()))
+			if(!is_constant(expFactorPair->second))
 			{
+				factor /= carl::pow(expFactorPair->second.lcoeff(), expFactorPair->first);
 				auto retVal = result.emplace(expFactorPair->second, expFactorPair->first);
 				CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << expFactorPair->second << ")^" << expFactorPair->first );
 				if(!retVal.second)
@@ -363,17 +359,20 @@ FactorMap<Coeff> factorization(const UnivariatePolynomial<Coeff>& p) {
 				}
 			}
 		}
-//		if(factor != (Coeff) 1)
-//		{
-//			CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << UnivariatePolynomial<Coeff>(mainVar(), {factor}) << ")^" << 1 );
-//			// Add the constant factor to the factors.
-//			if( result.begin()->first.isConstant() )
-//			{
-//				factor *= result.begin()->first.lcoeff();
-//				result.erase( result.begin() );
-//			}
-//			result.insert(result.begin(), std::pair<UnivariatePolynomial<Coeff>, unsigned>(UnivariatePolynomial<Coeff>(mainVar(), {factor}), 1));
-//		}
+		if(!carl::isOne(factor))
+		{
+			CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << factor << ")^" << 1 );
+			// Add the constant factor to the factors.
+			if(is_constant(result.begin()->first))
+			{
+				factor *= result.begin()->first.lcoeff();
+				result.erase(result.begin());
+			}
+			if(!carl::isOne(factor))
+			{
+				result.emplace(UnivariatePolynomial<Coeff>(p.mainVar(), factor), 1);
+			}
+		}
 	}
 	return result;
 }
-- 
2.43.0


From bed5fd216736a4e8a75a7577fe1659b7412e6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:11 +0000
Subject: [PATCH 081/151] fix: count the root zero in the point interval [0,0]

Scaling the coefficients with powers of zero leaves no sign variation, so that
the upper bound for the number of roots in [0,0] always was zero.
---
 src/carl/core/polynomialfunctions/SignVariations.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/SignVariations.h b/src/carl/core/polynomialfunctions/SignVariations.h
index f9019ed..9bdc1c5 100644
--- a/src/carl/core/polynomialfunctions/SignVariations.h
+++ b/src/carl/core/polynomialfunctions/SignVariations.h
@@ -71,6 +71,12 @@ UnivariatePolynomial<Coefficient> shift(const UnivariatePolynomial<Coefficient>&
 template<typename Coefficient>
 uint sign_variations(const UnivariatePolynomial<Coefficient>& polynomial, const Interval<Coefficient>& interval) {
 	if (interval.isEmpty()) return 0;
+	if (interval.isPointInterval() && isZero(interval.lower())) {
+		// The multiplicity of the root zero.
+		uint res = 0;
+		while (res < polynomial.coefficients().size() && isZero(polynomial.coefficients()[res])) ++res;
+		return res;
+	}
 	if (interval.isPointInterval()) {
 		std::vector<Coefficient> vals;
 		Coefficient factor = carl::constant_one<Coefficient>::get();
-- 
2.43.0


From ba16946558ff3e9b3b21a0aa6cd85066ef828fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:11 +0000
Subject: [PATCH 082/151] fix: do not read behind the range when counting sign
 variations

The end iterator was dereferenced if the range is empty or has only zeros.
---
 src/carl/core/Sign.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Sign.h b/src/carl/core/Sign.h
index 9ec9a2f..6265505 100644
--- a/src/carl/core/Sign.h
+++ b/src/carl/core/Sign.h
@@ -67,8 +67,9 @@ Sign sgn(const Number& n) {
  */
 template<typename InputIterator>
 std::size_t sign_variations(InputIterator begin, InputIterator end) {
-	while ((*begin == Sign::ZERO) && (begin != end))
+	while ((begin != end) && (*begin == Sign::ZERO))
 		++begin;
+	if (begin == end) return 0;
 
 	std::size_t changes = 0;
 	for (Sign last = *begin; begin != end; ++begin) {
-- 
2.43.0


From 32f79c36322541ad9afb234de9174019ae0d06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:06 +0000
Subject: [PATCH 083/151] fix: do not keep infinite doubles as bounds of
 unbounded intervals

---
 src/carl/interval/Interval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 7a38745..17851ea 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -92,6 +92,10 @@ namespace carl
 			if (std::isinf(n.upper())) {
 				n.setUpperBoundType(BoundType::INFTY);
 			}
+			if (std::isinf(n.lower())) {
+				// Both bounds are infinite, do not keep them as numbers.
+				n.set(0, 0);
+			}
 			assert(!std::isnan(n.lower()));
 			assert(!std::isnan(n.upper()));
 		}
-- 
2.43.0


From ac35c387b452e34314d6da098ec247bc02d8238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:06 +0000
Subject: [PATCH 084/151] fix: round outwards when converting rational
 intervals to double intervals

---
 src/carl/interval/Interval.h   | 7 ++++++-
 src/carl/interval/conversion.h | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 17851ea..f720b14 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -334,7 +334,12 @@ namespace carl
         template<typename Other, DisableIf<std::is_same<Number, Other >> = dummy >
         explicit Interval(const Interval<Other>& o)
         {
-            *this = Interval<Number>(carl::convert<Other,Number>(o.lower()), o.lowerBoundType(), carl::convert<Other,Number>(o.upper()), o.upperBoundType());
+            if constexpr (std::is_floating_point<Number>::value && is_rational<Other>::value) {
+                // Rounds the bounds outwards.
+                *this = Interval<Number>(o.lower(), o.lowerBoundType(), o.upper(), o.upperBoundType());
+            } else {
+                *this = Interval<Number>(carl::convert<Other,Number>(o.lower()), o.lowerBoundType(), carl::convert<Other,Number>(o.upper()), o.upperBoundType());
+            }
         }
 
         /**
diff --git a/src/carl/interval/conversion.h b/src/carl/interval/conversion.h
index 7d6c29b..f7daaf9 100644
--- a/src/carl/interval/conversion.h
+++ b/src/carl/interval/conversion.h
@@ -7,7 +7,7 @@ namespace carl {
 
     template<typename From, typename To, carl::DisableIf< std::is_same<From,To> > = dummy >
 	inline Interval<To> convert(const Interval<From>& i) {
-        return Interval<To>(carl::convert<From,To>(i.lower()), i.lowerBoundType(), carl::convert<From,To>(i.upper()), i.upperBoundType());
+        return Interval<To>(i);
     }
 
 	template<typename From, typename To, carl::EnableIf< std::is_same<From,To> > = dummy >
-- 
2.43.0


From 1a097e13374878381a86457738d8ef67377aca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:06 +0000
Subject: [PATCH 085/151] fix: keep integers above 2^53 in the integral part of
 double intervals

---
 src/carl/interval/Interval.tpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index ba76219..255b7f2 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -51,8 +51,13 @@ Interval<Number> Interval<Number>::integralPart() const
 		case BoundType::STRICT:
 			newLowerBound = ceil(mContent.lower());
 			newLowerBoundType = BoundType::WEAK;
-			if(newLowerBound == mContent.lower())
-				newLowerBound += carl::constant_one<Number>::get();
+			if(newLowerBound == mContent.lower()) {
+				Number next = newLowerBound + carl::constant_one<Number>::get();
+				if (next - newLowerBound == carl::constant_one<Number>::get())
+					newLowerBound = next;
+				else // next integer is not representable
+					newLowerBoundType = BoundType::STRICT;
+			}
 			break;
 		default:
 			break;
@@ -67,8 +72,13 @@ Interval<Number> Interval<Number>::integralPart() const
 		case BoundType::STRICT:
 			newUpperBound = floor(mContent.upper());
 			newUpperBoundType = BoundType::WEAK;
-			if(newUpperBound == mContent.upper())
-				newUpperBound -= carl::constant_one<Number>::get();
+			if(newUpperBound == mContent.upper()) {
+				Number previous = newUpperBound - carl::constant_one<Number>::get();
+				if (newUpperBound - previous == carl::constant_one<Number>::get())
+					newUpperBound = previous;
+				else // previous integer is not representable
+					newUpperBoundType = BoundType::STRICT;
+			}
 			if(newLowerBoundType == BoundType::INFTY)
 				newLowerBound = newUpperBound;
 			break;
-- 
2.43.0


From 0eac2fae884351360d05ccb353bdd6874ed364d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:03 +0000
Subject: [PATCH 086/151] fix: keep intervals behind a merged one in contractor
 normalization

---
 src/carl/interval/Contractor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/interval/Contractor.h b/src/carl/interval/Contractor.h
index 0098a66..e58d07e 100644
--- a/src/carl/interval/Contractor.h
+++ b/src/carl/interval/Contractor.h
@@ -83,6 +83,7 @@ private:
 				assert(!res);
 			} else {
 				++last;
+				if (last != i) intervals[last] = intervals[i];
 			}
 		}
 		intervals.resize(last + 1);
-- 
2.43.0


From 0d2048bbaa9dd4c9134c51266b514877e4eb6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:24 +0000
Subject: [PATCH 087/151] fix: handle zero polynomials in sos_decomposition

---
 src/carl/core/polynomialfunctions/SoSDecomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/SoSDecomposition.h b/src/carl/core/polynomialfunctions/SoSDecomposition.h
index 65d2d17..7971927 100644
--- a/src/carl/core/polynomialfunctions/SoSDecomposition.h
+++ b/src/carl/core/polynomialfunctions/SoSDecomposition.h
@@ -10,7 +10,7 @@ namespace carl {
 template<typename C, typename O, typename P>
 std::vector<std::pair<C,MultivariatePolynomial<C,O,P>>> sos_decomposition(const MultivariatePolynomial<C,O,P>& p, bool not_trivial = false) {
 	std::vector<std::pair<C,MultivariatePolynomial<C,O,P>>> result;
-	if (carl::isNegative(p.lcoeff())) {
+	if (isZero(p) || carl::isNegative(p.lcoeff())) {
 		return result;
 	}
 	if (!not_trivial) {
-- 
2.43.0


From 506b5ab430cc5556335cf7dbd4a9bc6d67a72551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:56 +0000
Subject: [PATCH 088/151] fix: call all settings finalizers

finalize_settings() used std::any_of, which stops at the first finalizer that
reports a change. Finalizers registered after that one were never called.
---
 src/carl-settings/SettingsParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/SettingsParser.cpp b/src/carl-settings/SettingsParser.cpp
index a44e8f4..d88795d 100644
--- a/src/carl-settings/SettingsParser.cpp
+++ b/src/carl-settings/SettingsParser.cpp
@@ -87,9 +87,12 @@ void SettingsParser::parse_config_file(bool allow_unregistered) {
 }
 
 bool SettingsParser::finalize_settings() {
-	return std::any_of(mFinalizer.begin(), mFinalizer.end(),
-		[](const auto& f){ return f(); }
-	);
+	// All finalizers have to be called, even if an earlier one already changed something.
+	bool changed = false;
+	for (const auto& f: mFinalizer) {
+		if (f()) changed = true;
+	}
+	return changed;
 }
 
 void SettingsParser::finalize() {
-- 
2.43.0


From b092a50d77acc25c90b2f809d83dfe1648345815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:56 +0000
Subject: [PATCH 089/151] fix: reject durations and quantities that overflow

The parsed number was multiplied with its unit without an overflow check, so
that 16Ei was accepted as zero. Such values are now rejected as invalid.
---
 src/carl-settings/settings_utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/settings_utils.cpp b/src/carl-settings/settings_utils.cpp
index be75833..5d0fbf0 100644
--- a/src/carl-settings/settings_utils.cpp
+++ b/src/carl-settings/settings_utils.cpp
@@ -4,6 +4,8 @@
 #include <boost/program_options.hpp>
 #include <boost/spirit/include/qi.hpp>
 
+#include <limits>
+
 namespace carl::settings {
 
 // Adapted from https://stackoverflow.com/questions/45071699/
@@ -25,7 +27,10 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("m", std::chrono::minutes(1))
 		("h", std::chrono::hours(1))
 	;
-	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)
+		&& value <= std::chrono::nanoseconds::max().count() / factor.count()
+		&& value >= std::chrono::nanoseconds::min().count() / factor.count()
+	) {
 		v = duration(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -55,7 +60,7 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("E", static_cast<std::size_t>(1) << 60U)
 		("Ei", static_cast<std::size_t>(1) << 60U)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor) && value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = binary_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -79,7 +84,7 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("P", 1000000000000000)
 		("E", 1000000000000000000)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor) && value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = metric_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
-- 
2.43.0


From 37e13c6a10981ae804ed58a18754be69293f38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:56 +0000
Subject: [PATCH 090/151] fix: print large quantities

Quantities of 2^63 and more were cast to a signed number before printing and
showed up as negative numbers without a suffix.
---
 src/carl-settings/settings_utils.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/carl-settings/settings_utils.h b/src/carl-settings/settings_utils.h
index c4875ce..ae06c09 100644
--- a/src/carl-settings/settings_utils.h
+++ b/src/carl-settings/settings_utils.h
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <iostream>
 #include <string>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -21,15 +22,15 @@ namespace carl::settings {
  * The return value is the value converted to this unit suffix and the index into the array to retrieve the appropriate suffix string.
  * For the above example, `get_proper_suffix(30000000000, a) = {30, 3}`, that is `30s`.
  */
-template<typename Array>
-std::pair<std::intmax_t,std::size_t> get_proper_suffix(std::intmax_t value, const Array& a) {
+template<typename Int = std::intmax_t, typename Array>
+std::pair<Int,std::size_t> get_proper_suffix(std::common_type_t<Int> value, const Array& a) {
 	std::size_t id = 0;
-	std::intmax_t mult = 1;
+	Int mult = 1;
 	for (; id < a.size()-1; ++id) {
-		if (value < (a[id].second * mult)) {
+		if (value < (static_cast<Int>(a[id].second) * mult)) {
 			break;
 		}
-		mult *= a[id].second;
+		mult *= static_cast<Int>(a[id].second);
 	}
 	return std::make_pair(value / mult, id);
 }
@@ -103,7 +104,7 @@ inline std::ostream& operator<<(std::ostream& os, const binary_quantity& q) {
 		{"", 1024}, {"Ki", 1024}, {"Mi", 1024},
 		{"Gi", 1024}, {"Ti", 1024}, {"Pi", 1024}, {"Ei", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::uintmax_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
@@ -149,7 +150,7 @@ inline std::ostream& operator<<(std::ostream& os, const metric_quantity& q) {
 		{"", 1000}, {"K", 1000}, {"M", 1000},
 		{"G", 1000}, {"T", 1000}, {"P", 1000}, {"E", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::uintmax_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
-- 
2.43.0


From 512616cac522233c557db2e3e53fa66c9800309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:59 +0000
Subject: [PATCH 091/151] fix: keep the meaning of equivalences with a constant
 operand

An equivalence holds if all of its operands have the same value. With the
constant true among three operands, (iff true a b) was simplified to
(iff a b), which also holds if a and b are both false; (iff false a b) became
the negation of (iff a b). Such an equivalence is now the conjunction of the
other operands or of their negations. An equivalence of a single operand given
as a list is true, as it already was when given as a single formula.
---
 src/carl/formula/FormulaPool.tpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 7dd3451..be00462 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -143,7 +143,7 @@ namespace carl
         if( _subformulas.size() == 1 )
         {
 			CARL_LOG_TRACE("carl.formula", "Only a single subformula, eliminating " << _type);
-            return _subformulas[0].mpContent;
+            return create(_type, std::move(_subformulas[0]));
         }
         if( _type != FormulaType::IFF )
         {
@@ -201,6 +201,14 @@ namespace carl
             }
             ++pos;   
         }
+        if( _type == FormulaType::IFF && pos > 0 && pos < _subformulas.size() )
+        {
+            // All sub-formulas have to be equal to the constant.
+            Formulas<Pol> conjuncts;
+            for( ; pos < _subformulas.size(); ++pos )
+                conjuncts.push_back( negateResult ? _subformulas[pos].negated() : _subformulas[pos] );
+            return create( FormulaType::AND, std::move( conjuncts ) );
+        }
         for( ; pos < _subformulas.size(); )
         {
             if( pos < _subformulas.size() - 1 )
-- 
2.43.0


From 94a9ce2772bccb8eb3fdf795208e476239044f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:59 +0000
Subject: [PATCH 092/151] fix: report weak inequalities inside of formulas

The proposition that a formula contains a weak inequality was set for a single
constraint, but not passed on to formulas containing that constraint.
---
 src/carl/formula/Condition.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/Condition.h b/src/carl/formula/Condition.h
index 6388226..202b453 100644
--- a/src/carl/formula/Condition.h
+++ b/src/carl/formula/Condition.h
@@ -81,6 +81,7 @@ namespace carl {
                                              | PROP_CONTAINS_MULTIVARIATE_POLYNOMIAL | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_BOOLEAN
                                              | PROP_CONTAINS_REAL_VALUED_VARS | PROP_CONTAINS_INTEGER_VALUED_VARS
                                              | PROP_CONTAINS_UNINTERPRETED_EQUATIONS | PROP_CONTAINS_BITVECTOR | PROP_CONTAINS_PSEUDOBOOLEAN
-                                             | PROP_VARIABLE_DEGREE_GREATER_THAN_TWO | PROP_VARIABLE_DEGREE_GREATER_THAN_THREE | PROP_VARIABLE_DEGREE_GREATER_THAN_FOUR;
+                                             | PROP_VARIABLE_DEGREE_GREATER_THAN_TWO | PROP_VARIABLE_DEGREE_GREATER_THAN_THREE | PROP_VARIABLE_DEGREE_GREATER_THAN_FOUR
+                                             | PROP_CONTAINS_WEAK_INEQUALITY;
 
 }     // namespace carl
-- 
2.43.0


From 847077844ff1ed5e61099668c6acb09b16a60c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:59 +0000
Subject: [PATCH 093/151] fix: let the conversion to CNF terminate with
 implications

If auxiliary variables are defined by implications instead of equivalences, the
definition (=> T (and A ...)) was queued again as a disjunction containing the
conjunction, which was replaced by T and defined once more, and so on. The
clauses of the definition are now added directly.
---
 src/carl/formula/helpers/to_cnf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/helpers/to_cnf.h b/src/carl/formula/helpers/to_cnf.h
index 00eb4cb..b874069 100644
--- a/src/carl/formula/helpers/to_cnf.h
+++ b/src/carl/formula/helpers/to_cnf.h
@@ -127,7 +127,10 @@ Formula<Poly> to_cnf_or(const Formula<Poly>& f, bool keep_constraints, bool simp
 				if (tseitin_equivalence) {
 					tseitin.emplace_back(Formula<Poly>(FormulaType::IFF, { tseitinVar, current }));
 				} else {
-					tseitin.emplace_back(Formula<Poly>(FormulaType::IMPLIES, { tseitinVar, current }));
+					// (=> T (and A ...)) -> (or (not T) A), ...
+					for (const auto& sub: current.subformulas()) {
+						tseitin.emplace_back(FormulaType::OR, !tseitinVar, sub);
+					}
 				}
 				subformulas.emplace_back(tseitinVar);
 				break;
-- 
2.43.0


From 19ff5638b8de9fc580cb6af9450289d22ae2dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:50 +0000
Subject: [PATCH 094/151] fix: let a constraint and its negation be negations
 of each other as formulas

The negation of the integer constraint x^2 >= 1 is simplified to x = 0, but the
constraint itself is not simplified to x != 0. Negating the formula of the first
constraint gave a formula for x = 0 that was not equal to the one created from
x = 0, and an assertion failed if the formula for x = 0 already existed. The
pool now uses the form of a constraint that is the negation of its negation.
---
 src/carl/formula/FormulaPool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index 4d12b02..fc34633 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -222,6 +222,10 @@ namespace carl
              * @return A formula with wrapping the given constraint.
              */
             const FormulaContent<Pol>* create(Constraint<Pol>&& _constraint) {
+                // The negation of a constraint may be simplified further than the constraint itself.
+                for (Constraint<Pol> c = _constraint.negation().negation(); c != _constraint; c = _constraint.negation().negation()) {
+                    _constraint = c;
+                }
                 #ifdef SIMPLIFY_FORMULA
                 switch (_constraint.isConsistent()) {
                     case 0: return falseFormula();
-- 
2.43.0


From b6bcfbf6cb108692b1a7fa2bcdd7190f697a6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:41 +0000
Subject: [PATCH 095/151] fix: combine strict bounds correctly in disjunctions

When constraints of a disjunction were combined, adding p >= 0 to p > 0 made the
disjunction valid, and adding p != 0 to p < 0 or p > 0 kept only the bound that
was found first.
---
 src/carl/formula/Formula.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 05d038d..6d544c1 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -694,7 +694,7 @@ namespace carl
                         case Relation::GREATER:
                             resB.first->second.first = Relation::GEQ;
                             resB.first->second.second = _constraint;
-                            return Formula( FormulaType::FALSE );
+                            return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::NEQ );
                             return Formula( FormulaType::FALSE );
@@ -824,9 +824,13 @@ namespace carl
                         case Relation::GEQ:
                             return Formula( FormulaType::FALSE );
                         case Relation::LESS:
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::GREATER );
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                     }
                 }
-- 
2.43.0


From 5518ced89bc297c55c6337a8d5c6024abfd4f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:21 +0000
Subject: [PATCH 096/151] fix: do not substitute twice when a formula is
 simplified to an atom

The visitor rebuilds a formula from the results for its operands and applies the
function to the rebuilt formula. If that was simplified to an atom, like
(not (not b)) to b, the function was applied to an atom that is a result already:
replacing b by (not b) in (not b) gave (not b), and replacing x by -1-2x^2 in a
disjunction with only one remaining operand replaced x twice.
---
 src/carl/formula/helpers/FormulaVisitor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/helpers/FormulaVisitor.h b/src/carl/formula/helpers/FormulaVisitor.h
index 46e229a..a5588aa 100644
--- a/src/carl/formula/helpers/FormulaVisitor.h
+++ b/src/carl/formula/helpers/FormulaVisitor.h
@@ -111,6 +111,8 @@ struct FormulaVisitor {
 				break;
 			}
 		}
+		// An atom a boolean combination was simplified to has already been visited.
+		if (newFormula != formula && newFormula.isAtom()) return newFormula;
 		return func(newFormula);
 	}
 };
-- 
2.43.0


From 3f006792331e92ba64ad660634f4457716087ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:32 +0000
Subject: [PATCH 097/151] fix: let the subresultant strategy of Ducos compute
 subresultants

The strategy read coefficients out of range and crashed on nearly all inputs: it
used polynomials that contain the main variable as coefficients, subtracted a
coefficient instead of its product with the last subresultant, and divided by
the leading coefficient of the second input instead of that of the subresultant
in the first step.
---
 src/carl/core/polynomialfunctions/Resultant.h | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Resultant.h b/src/carl/core/polynomialfunctions/Resultant.h
index 24d966b..92aacbe 100644
--- a/src/carl/core/polynomialfunctions/Resultant.h
+++ b/src/carl/core/polynomialfunctions/Resultant.h
@@ -235,25 +235,29 @@ std::list<UnivariatePolynomial<Coeff>> subresultants(
 				if (pDeg != qDeg) { // => aDeg > bDeg
 					h[qDeg] = Coeff(lcoeffC * carl::pow(Coeff(variable), qDeg) - c); // H_e
 				}
+				// The coefficient of variable^qDeg
+				auto coefficient = [&](const UnivariatePolynomial<Coeff>& f) {
+					return f.coefficients().size() > qDeg ? f.coefficients()[qDeg] : Coeff(0);
+				};
 				for (uint d = qDeg + 1; d < pDeg; d++) {
 					Coeff t = h[d-1] * variable;
-					UnivariatePolynomial<Coeff> reducedNewB = carl::to_univariate_polynomial(t, variable).coefficients()[qDeg] * q;
+					UnivariatePolynomial<Coeff> reducedNewB = q * coefficient(carl::to_univariate_polynomial(t, variable));
 					bool res = carl::try_divide(reducedNewB, lcoeffQ, reducedNewB);
 					assert(res || is_constant(reducedNewB));
-					h[d] = Coeff(t - reducedNewB);
+					h[d] = Coeff(t - Coeff(reducedNewB));
 				}
 
-				UnivariatePolynomial<Coeff> sum(p.mainVar(), h.front() * p.coefficients()[0]);
+				Coeff sum = h.front() * p.coefficients()[0];
 				for (uint d = 1; d < pDeg; d++) {
 					sum += h[d] * p.coefficients()[d];
 				}
 				UnivariatePolynomial<Coeff> normalizedSum(p.mainVar());
-				bool res = carl::try_divide(sum, p.lcoeff(), normalizedSum);
-				assert(res || is_constant(sum));
+				bool res = carl::try_divide(carl::to_univariate_polynomial(sum, variable), p.lcoeff(), normalizedSum);
+				assert(res || carl::isZero(sum));
 
-				UnivariatePolynomial<Coeff> t(variable, {0, h.back()});
-				UnivariatePolynomial<Coeff> reducedNewB = ((t + normalizedSum) * lcoeffQ - carl::to_univariate_polynomial(t.coefficients()[qDeg], variable));
-				carl::try_divide(reducedNewB, p.lcoeff(), reducedNewB);
+				UnivariatePolynomial<Coeff> t = carl::to_univariate_polynomial(Coeff(h.back() * variable), variable);
+				UnivariatePolynomial<Coeff> reducedNewB = (t + normalizedSum) * lcoeffQ - q * coefficient(t);
+				carl::try_divide(reducedNewB, subresLcoeff, reducedNewB);
 				if (delta % 2 == 0) {
 					q = -reducedNewB;
 				} else {
-- 
2.43.0


From 429bf57e8b47205a8e8bfcdf1fe99900b1559182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:32 +0000
Subject: [PATCH 098/151] fix: evaluate the sign of a polynomial at a rational
 algebraic number

A numeric real algebraic number has no defining polynomial, but sgn(p)
accessed it and crashed.
---
 src/carl/ran/interval/ran_interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 0da32d2..4e1bdb4 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -278,6 +278,7 @@ public:
 	}
 
 	Sign sgn(const Polynomial& p) const {
+		if (is_numeric()) return carl::sgn(carl::evaluate(p, value()));
 		Polynomial tmp = replaceVariable(p);
 		if (polynomial_int() == tmp) return Sign::ZERO;
 		auto seq = carl::sturm_sequence(polynomial_int(), derivative(polynomial_int()) * tmp);
-- 
2.43.0


From a5e7744a9d025170c2b7bbb0551def64d725fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:32 +0000
Subject: [PATCH 099/151] fix: real algebraic numbers in disjoint intervals are
 not equal

Comparing such numbers with != returned false.
---
 src/carl/ran/interval/ran_interval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 4e1bdb4..9263b5b 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -429,10 +429,10 @@ bool compare(const real_algebraic_number_interval<Number>& lhs, const real_algeb
 	CARL_LOG_TRACE("carl.ran", "Intervals " << lhs.interval_int() << " and " << rhs.interval_int() << " are disjoint");
 	assert(!carl::set_have_intersection(lhs.interval_int(), rhs.interval_int()));
 	if (lhs.interval_int().upper() <= rhs.interval_int().lower()) {
-		return relation == Relation::LESS || relation == Relation::LEQ;
+		return relation == Relation::LESS || relation == Relation::LEQ || relation == Relation::NEQ;
 	}
 	if (lhs.interval_int().lower() >= rhs.interval_int().upper()) {
-		return relation == Relation::GREATER || relation == Relation::GEQ;
+		return relation == Relation::GREATER || relation == Relation::GEQ || relation == Relation::NEQ;
 	}
 
 	assert(false);
-- 
2.43.0


From ac52e6c09a45cc4a61c54268676eadbee2774a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:32 +0000
Subject: [PATCH 100/151] fix: report only roots within the interval for low
 degrees

Roots of linear and quadratic polynomials were returned even if they are
outside of the given interval.
---
 src/carl/ran/interval/RealRootIsolation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 6a100b9..89f253c 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -114,12 +114,13 @@ class RealRootIsolation {
 	void add_trivial_root(const Number& n) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << n);
 		assert(carl::is_root_of(mPolynomial, n));
-		mRoots.emplace_back(n);
+		if (mInterval.contains(n)) mRoots.emplace_back(n);
 	}
 
 	void add_trivial_root(const Interval<Number>& i) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << i);
-		mRoots.emplace_back(mPolynomial, i);
+		real_algebraic_number_interval<Number> root(mPolynomial, i);
+		if (root.contained_in(mInterval)) mRoots.emplace_back(std::move(root));
 	}
 
 	/// Use root bounds to shrink mInterval.
-- 
2.43.0


From 040374fe479a5f28485437490d790ad38b26782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:47 +0000
Subject: [PATCH 101/151] fix: separate real algebraic numbers before sampling
 between them

Using the bounds of one interval to refine the other one may leave two
equal intervals, for which sample_between failed.
---
 src/carl/ran/interval/ran_interval.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 9263b5b..ddc7d53 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -325,7 +325,10 @@ template<typename Number>
 Number sample_between(const real_algebraic_number_interval<Number>& lower, const real_algebraic_number_interval<Number>& upper) {
 	lower.refine_using(upper.interval_int().lower());
 	upper.refine_using(lower.interval_int().upper());
-	assert(lower.interval_int().upper() <= upper.interval_int().lower());
+	while (lower.interval_int().upper() > upper.interval_int().lower()) {
+		lower.refine();
+		upper.refine();
+	}
 	if (lower.is_numeric()) {
 		return sample_between(lower.value(), upper);
 	} else if (upper.is_numeric()) {
-- 
2.43.0


From 95bda98229aab56097568f33a95d1e11ab0ed9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:23 +0000
Subject: [PATCH 102/151] fix: isolate roots in open intervals bounded by roots

A root at an excluded bound of the interval was kept in the polynomial, so
that bisection met intervals whose bounds are roots.
---
 src/carl/ran/interval/RealRootIsolation.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 89f253c..01a9831 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -147,17 +147,21 @@ class RealRootIsolation {
 	/// Check whether the interval bounds are roots.
 	bool check_interval_bounds() {
 		bool found_root = false;
-		if (mInterval.lowerBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.lower())) {
+		if (carl::is_root_of(mPolynomial, mInterval.lower())) {
+			if (mInterval.lowerBoundType() == BoundType::WEAK) {
 				add_root(mInterval.lower());
-				found_root = true;
+			} else {
+				eliminate_root(mPolynomial, mInterval.lower());
 			}
+			found_root = true;
 		}
-		if (mInterval.upperBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.upper())) {
+		if (carl::is_root_of(mPolynomial, mInterval.upper())) {
+			if (mInterval.upperBoundType() == BoundType::WEAK) {
 				add_root(mInterval.upper());
-				found_root = true;
+			} else {
+				eliminate_root(mPolynomial, mInterval.upper());
 			}
+			found_root = true;
 		}
 		return found_root;
 	}
-- 
2.43.0


From b9cb1abe46ef2b85d0b4e2deb05c7d538a6d7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:09 +0000
Subject: [PATCH 103/151] fix: reset cached substitutions when a model is
 changed

assign() and update() kept the values that substitutions had before, unlike
the other modifying functions.
---
 src/carl-model/Model.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-model/Model.h b/src/carl-model/Model.h
index fc5f130..ada3130 100644
--- a/src/carl-model/Model.h
+++ b/src/carl-model/Model.h
@@ -122,11 +122,13 @@ namespace carl
 		}
 		template<typename T>
 		void assign(const typename Map::key_type& key, const T& t) {
+			resetCaches();
 			auto it = mData.find(key);
 			if (it == mData.end()) mData.emplace(key, t);
 			else it->second = t;
 		}
 		void update(const Model& model, bool disjoint = true) {
+			resetCaches();
 			for (const auto& m: model) {
 				auto res = mData.insert(m);
 				if (disjoint) {
-- 
2.43.0


From f78f9269ffc6921c178d4997ef3ca8f71fb44be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:09 +0000
Subject: [PATCH 104/151] fix: keep comparisons of variables without a value in
 the model

A variable may be mapped to a substitution whose variables are not assigned.
---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index 3b52edf..646cd44 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -58,7 +58,10 @@ namespace model {
 			return;
 		}
 		const auto& value = m.evaluated(vc.var());
-		assert(value.isRational() || value.isRAN());
+		if (!value.isRational() && !value.isRAN()) {
+			CARL_LOG_DEBUG("carl.model.evaluation", "Could not evaluate " << vc << " as " << vc.var() << " has no value");
+			return;
+		}
 		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
 		CARL_LOG_DEBUG("carl.model.evaluation", "Reference value: " << vc.var() << " == " << reference);
 		
-- 
2.43.0


From 7959f70b4fb564b817e449c633e4742473f474a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:09 +0000
Subject: [PATCH 105/151] fix: keep equalities whose functions are not in the
 model

---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index 646cd44..57003b2 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -181,7 +181,9 @@ namespace model {
 			case FormulaType::UEQ: {
 				std::set<UVariable> vars;
 				f.uequality().gatherUVariables(vars);
-				if (m.contains(vars)) {
+				std::set<UninterpretedFunction> ufs;
+				f.uequality().gatherUFs(ufs);
+				if (m.contains(vars) && m.contains(ufs)) {
 					auto val = evaluate(f.uequality(), m);
 					assert(val.isBool());
 					f = Formula<Poly>(val.asBool() ? FormulaType::TRUE : FormulaType::FALSE);
-- 
2.43.0


From cdf652f8917035ea7fa2207a5e74e12fa454dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:09 +0000
Subject: [PATCH 106/151] fix: compare numbers when evaluating variable
 assignments

The value in the model may be a rational or an algebraic number, or a
substitution that cannot be evaluated yet.
---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index 57003b2..19dfac0 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -100,8 +100,9 @@ namespace model {
 		auto it = m.find(va.var());
 		if (it == m.end()) return;
 		const auto& value = m.evaluated(va.var());
-		const ModelValue<Rational,Poly>& vavalue = va.value();
-		if (value == vavalue) {
+		if (!value.isRational() && !value.isRAN()) return;
+		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
+		if (reference == va.value()) {
 			f = Formula<Poly>(FormulaType::TRUE);
 		} else {
 			f = Formula<Poly>(FormulaType::FALSE);
-- 
2.43.0


From be8a8779f3038095e81d1f091a79959921d72710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:09 +0000
Subject: [PATCH 107/151] fix: reset the cached value when a polynomial
 substitution is changed

---
 src/carl-model/substitutions/ModelPolynomialSubstitution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-model/substitutions/ModelPolynomialSubstitution.h b/src/carl-model/substitutions/ModelPolynomialSubstitution.h
index 6d83431..8688b2c 100644
--- a/src/carl-model/substitutions/ModelPolynomialSubstitution.h
+++ b/src/carl-model/substitutions/ModelPolynomialSubstitution.h
@@ -16,9 +16,11 @@ namespace carl {
 			return mPoly;
 		}
 		virtual void multiplyBy(const Rational& n) {
+			this->resetCache();
 			mPoly *= n;
 		}
 		virtual void add(const Rational& n) {
+			this->resetCache();
 			mPoly += n;
 		}
 
-- 
2.43.0


From 4a3a655eba5a1c562adfd0452e7115497f090ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:10 +0000
Subject: [PATCH 108/151] fix: keep the conclusion of an implication without
 premises alive

The local copy of the conclusion held the only reference once all
premises were dropped, so the formula that was returned had already been
removed from the pool.
---
 src/carl/formula/FormulaPool.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index be00462..31fcce4 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -126,6 +126,8 @@ namespace carl
         }
         #endif
         if (_subformulas.empty()) {
+            // Keep the conclusion alive until the caller has registered the result.
+            _subformulas.push_back(conclusion);
             return conclusion.mpContent;
         }
         Formula<Pol> premise(AND, std::move(_subformulas));
-- 
2.43.0


From 048cabc9fc0ef9cbe4e6ae75f7ef4847f6f40397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:17 +0000
Subject: [PATCH 109/151] fix: let the gcd of multivariate polynomials compile
 without CoCoA

The fallback used when no library is available still called members
that have become free functions.
---
 src/carl/core/polynomialfunctions/GCD_multivariate.h   | 4 ++--
 src/carl/core/polynomialfunctions/PrimitiveEuclidean.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_multivariate.h b/src/carl/core/polynomialfunctions/GCD_multivariate.h
index 95a4a20..6dbdd01 100644
--- a/src/carl/core/polynomialfunctions/GCD_multivariate.h
+++ b/src/carl/core/polynomialfunctions/GCD_multivariate.h
@@ -32,8 +32,8 @@ namespace gcd_detail {
 			return Polynomial(1);
 		}
 		CARL_LOG_INEFFICIENT();
-		auto A = a.toUnivariatePolynomial(x);
-		auto B = b.toUnivariatePolynomial(x);
+		auto A = carl::to_univariate_polynomial(a, x);
+		auto B = carl::to_univariate_polynomial(b, x);
 		Polynomial result(primitive_euclidean(A.normalized(), B.normalized()));
 		if (carl::isNegative(result.lcoeff()) && !(carl::isNegative(a.lcoeff()) && carl::isNegative(b.lcoeff()))) {
 			return -result;
diff --git a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
index c94cc57..0bbe420 100644
--- a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
+++ b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
@@ -2,6 +2,7 @@
 
 #include "Content.h"
 #include "PrimitivePart.h"
+#include "Remainder.h"
 
 #include "../UnivariatePolynomial.h"
 
@@ -18,7 +19,7 @@ UnivariatePolynomial<Coeff> primitive_euclidean(const UnivariatePolynomial<Coeff
 	UnivariatePolynomial<Coeff> d = primitive_part(b.normalized());
 	
 	while (!isZero(d)) {
-		UnivariatePolynomial<Coeff> r = c.prem(d);
+		UnivariatePolynomial<Coeff> r = carl::pseudo_remainder(c, d);
 		c = d;
 		d = primitive_part(r.normalized());
 	}
-- 
2.43.0


From b6301f062441ca942417e67dfb4a9d599f97156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 110/151] fix: keep the square root of the right operand in
 sums and products of square root expressions

---
 src/carl/vs/SqrtEx.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8900383..cd5cdcf 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -192,7 +192,7 @@ namespace carl
         assert( !hasSqrt() ||!rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() + rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() + rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -202,7 +202,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() - rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() - rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -212,7 +212,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.constantPart() * constantPart() + rhs.factor() * factor() * radicand(),
                          rhs.constantPart() * factor() + rhs.factor() * constantPart(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
-- 
2.43.0


From f80bd6d9dcfbfe255ea1d7416d53fd90f318f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 111/151] fix: divide square root expressions by the value of
 the divisor

---
 src/carl/vs/SqrtEx.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index cd5cdcf..6145e86 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -221,7 +221,7 @@ namespace carl
     {
         assert( !rhs.hasSqrt() );
         SqrtEx<Poly> result = SqrtEx<Poly>( constantPart() * rhs.denominator(), factor() * rhs.denominator(),
-                         denominator() * rhs.factor(), radicand() );
+                         denominator() * rhs.constantPart(), radicand() );
         return result;
     }
     
-- 
2.43.0


From bad7953ffd143972782a1d89fba1537397f68142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 112/151] fix: use the relation itself for even degrees when
 substituting plus infinity

---
 src/carl/vs/substitute.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 8aa64eb..9075242 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -1142,10 +1142,9 @@ namespace carl::vs::detail
         {
             assert( _subs.term().is_plus_infty() );
             if( _cons.relation() == Relation::LESS || _cons.relation() == Relation::LEQ )
-            {
                 oddRelationType  = Relation::LESS;
+            else
                 evenRelationType = Relation::GREATER;
-            }
         }
         // Check all cases according to the substitution rules.
         carl::uint varDegree = _cons.maxDegree( _subs.variable() );
-- 
2.43.0


From 1c2939c880ba8f6bb0e9f912814521c37b6db9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 113/151] fix: require either condition for a square root term
 to differ from zero

---
 src/carl/vs/substitute.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 9075242..8bbbb75 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -835,9 +835,11 @@ namespace carl::vs::detail
         if( _accordingPaper )
         {
             Poly qr = _q * _r;
-            // Add conjunction (q*r>0 and q^2-r^2*radicand!=0) to the substitution result.
+            // Add conjunction (q*r>0) to the substitution result.
             _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( qr, Relation::GREATER ) );
+            // Add conjunction (q^2-r^2*radicand!=0) to the substitution result.
+            _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( lhs, Relation::NEQ ) );
         }
         else
-- 
2.43.0


From 14d482f62be26baaac7b948ad55220cb99173dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 114/151] fix: divide by the denominator when converting a
 square root expression to a rational

---
 src/carl/vs/SqrtEx.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/vs/SqrtEx.h b/src/carl/vs/SqrtEx.h
index 335c45e..fa7b951 100644
--- a/src/carl/vs/SqrtEx.h
+++ b/src/carl/vs/SqrtEx.h
@@ -159,10 +159,8 @@ namespace carl
              */
             Rational asRational() const
             {
-                if( isConstant() )
-                    return asConstant();
                 assert( isRational() );
-                return mConstantPart.constantPart()/mFactor.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
             
         private:
-- 
2.43.0


From da3007d80f0445f517d99aeefde9f07531f0a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 115/151] fix: round square root expressions correctly for
 negative denominators and vanishing factors

---
 src/carl/vs/SqrtEx.tpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 6145e86..013d20f 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -309,24 +309,24 @@ namespace carl
         // Check whether the resulting assignment is integer.
         bool rounded = true;
         Rational sqrtExValue;
-        if( !carl::sqrt_exact( radicandValue, sqrtExValue ) )
+        if( !carl::isZero( factorValue ) && !carl::sqrt_exact( radicandValue, sqrtExValue ) )
         {
             assert( _rounding != 0 );
             rounded = false;
-            assert( factorValue != 0 );
+            const bool positiveFactor = (factorValue > 0) == (denomValue > 0);
             double dbSqrt = sqrt( carl::toDouble( radicandValue ) );
             sqrtExValue = carl::rationalize<Rational>( dbSqrt ) ;
             // As there is no rational number representing the resulting square root we have to round.
             if( _rounding < 0 ) // If the result should round down in this case.
             {
-                if( factorValue > 0 && (sqrtExValue*sqrtExValue) > radicandValue )
+                if( positiveFactor && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding down.
                     dbSqrt = std::nextafter( dbSqrt, -INFINITY );
                     sqrtExValue = carl::rationalize<Rational>( dbSqrt );
                     assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
                 }
-                else if( factorValue < 0 && (sqrtExValue*sqrtExValue) < radicandValue )
+                else if( !positiveFactor && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding up.
                     dbSqrt = std::nextafter( dbSqrt, INFINITY );
@@ -336,14 +336,14 @@ namespace carl
             }
             else if( _rounding > 0 ) // If the result should round up in this case.
             {
-                if( factorValue < 0 && (sqrtExValue*sqrtExValue) > radicandValue )
+                if( !positiveFactor && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding down.
                     dbSqrt = std::nextafter( dbSqrt, -INFINITY );
                     sqrtExValue = carl::rationalize<Rational>( dbSqrt );
                     assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
                 }
-                else if( factorValue > 0 && (sqrtExValue*sqrtExValue) < radicandValue )
+                else if( positiveFactor && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding up.
                     dbSqrt = std::nextafter( dbSqrt, INFINITY );
-- 
2.43.0


From 13e1631ccfa15705702e7f70c2946e9705b5ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:13 +0000
Subject: [PATCH 116/151] fix: choose the zero of a comparison by the sign of
 the leading coefficient

---
 src/carl/vs/zeros.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/vs/zeros.h b/src/carl/vs/zeros.h
index 452a2da..ec72647 100644
--- a/src/carl/vs/zeros.h
+++ b/src/carl/vs/zeros.h
@@ -195,12 +195,12 @@ bool gather_zeros(const VariableComparison<Poly>& varcomp, const Variable& elimi
 					assert(Constraint<Poly>(radicand, carl::Relation::GEQ) == Constraint<Poly>(true));
 					assert(Constraint<Poly>(coeffs.rbegin()->second, carl::Relation::NEQ) == Constraint<Poly>(true));
 
-					if (idx == 0) {
+					// Which of the two roots is the smaller one depends on the sign of a.
+					if ((idx == 0) == (coeffs.rbegin()->second.constantPart() > 0)) {
 						// Create[x -> (-b-sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExA(-linearCoeff, Poly(-1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExA), {}});
 					} else {
-						assert(idx == 1);
 						// Create [x -> (-b+sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExB(-linearCoeff, Poly(1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExB), {}});
-- 
2.43.0


From f35f216646ea4c8002fbe92f0b560b432869a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:24 +0000
Subject: [PATCH 117/151] fix: recognize a square root expression whose parts
 cancel as the integer 0

---
 src/carl/vs/SqrtEx.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 013d20f..919719c 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -89,7 +89,12 @@ namespace carl
                 }
             }
         }
-        if( isZero(gcdA) ) return;
+        if( isZero(gcdA) )
+        {
+            // Both parts cancelled each other.
+            mDenominator = constant_one<Poly>::get();
+            return;
+        }
         Rational ccGcdA = gcdA.coprimeFactor();
         Poly cpGcdA = gcdA * ccGcdA;
         Rational ccDenominator = mDenominator.coprimeFactor();
-- 
2.43.0


From 28e01c42cde9862aa760aed559683c4144ccf71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:01 +0000
Subject: [PATCH 118/151] fix: do not return a monomial whose last reference is
 being dropped by another thread

---
 src/carl/core/MonomialPool.cpp | 8 ++++++--
 src/carl/core/MonomialPool.h   | 7 +++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/carl/core/MonomialPool.cpp b/src/carl/core/MonomialPool.cpp
index 052bf50..e03ca43 100644
--- a/src/carl/core/MonomialPool.cpp
+++ b/src/carl/core/MonomialPool.cpp
@@ -17,8 +17,12 @@ Monomial::Arg MonomialPool::add(Monomial::Content&& c, exponent totalDegree) {
 	underlying_set::insert_commit_data insert_data;
 	auto res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
 	if (!res.second) {
-		return res.first->mWeakPtr.lock();
-	} else {
+		if (auto existing = res.first->mWeakPtr.lock()) return existing;
+		// All references are gone but the monomial is not removed from the pool yet: replace it.
+		mPool.erase(res.first);
+		res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
+	}
+	{
 		auto shared = std::shared_ptr<Monomial>(new Monomial(c, totalDegree));
 		shared.get()->mId = mIDs.get();
 		shared.get()->mWeakPtr = shared;
diff --git a/src/carl/core/MonomialPool.h b/src/carl/core/MonomialPool.h
index 2d6e96d..3bf8483 100644
--- a/src/carl/core/MonomialPool.h
+++ b/src/carl/core/MonomialPool.h
@@ -139,11 +139,10 @@ public:
 		if (m->id() == 0) return;
 		CARL_LOG_TRACE("carl.core.monomial", "Freeing " << m);
 		MONOMIAL_POOL_LOCK_GUARD;
-		auto it = mPool.find(*m);
-		if (it != mPool.end()) {
+		mIDs.free(m->id());
+		if (m->is_linked()) {
 			CARL_LOG_TRACE("carl.core.monomial", "Found " << m->id());
-			mIDs.free(m->id());
-			mPool.erase(it);
+			mPool.erase(mPool.iterator_to(*m));
 		} else {
 			CARL_LOG_TRACE("carl.core.monomial", "Not found in pool.");
 		}
-- 
2.43.0


From 024a3bb0b43cb0a005c427b61c9fb28aa2cbcd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:24 +0000
Subject: [PATCH 119/151] fix: keep primes handed out valid while other threads
 compute further ones

---
 src/carl/numbers/PrimeFactory.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/carl/numbers/PrimeFactory.h b/src/carl/numbers/PrimeFactory.h
index 31e5ae3..f3002e6 100644
--- a/src/carl/numbers/PrimeFactory.h
+++ b/src/carl/numbers/PrimeFactory.h
@@ -2,6 +2,7 @@
 
 #include "numbers.h"
 
+#include <deque>
 #include <mutex>
 
 namespace carl {
@@ -12,23 +13,30 @@ namespace carl {
 template<typename T>
 class PrimeFactory
 {
-	static std::vector<T> mPrimes;
+	/// Shared by all factories; a deque, as references to its elements are handed out.
+	static std::deque<T> mPrimes;
 #ifdef THREAD_SAFE
-	static std::mutex mPrimeMutex;
+	static std::recursive_mutex mPrimeMutex;
+	#define PRIME_LOCK_GUARD std::lock_guard<std::recursive_mutex> guard(mPrimeMutex);
+#else
+	#define PRIME_LOCK_GUARD
 #endif
 	std::size_t mNext = 0;
 public:
 	/// Returns the number of already computed primes.
 	std::size_t size() const {
+		PRIME_LOCK_GUARD
 		return mPrimes.size();
 	}
 	/// Provides const access to the computed primes. Asserts that id is smaller than size().
 	const T& operator[](std::size_t id) const {
+		PRIME_LOCK_GUARD
 		assert(id < mPrimes.size());
 		return mPrimes[id];
 	}
 	/// Provides access to the computed primes. If id is at least size(), the missing primes are computed on-the-fly.
 	const T& operator[](std::size_t id) {
+		PRIME_LOCK_GUARD
 		while (id >= mPrimes.size()) nextPrime();
 		return mPrimes[id];
 	}
@@ -37,13 +45,13 @@ public:
 };
 
 template<typename T>
-std::vector<T> PrimeFactory<T>::mPrimes = {
+std::deque<T> PrimeFactory<T>::mPrimes = {
 	2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41,
 	43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97
 };
 #ifdef THREAD_SAFE
 template<typename T>
-std::mutex PrimeFactory<T>::mPrimeMutex;
+std::recursive_mutex PrimeFactory<T>::mPrimeMutex;
 #endif
 
 namespace detail {
@@ -72,10 +80,8 @@ namespace detail {
 
 template<typename T>
 const T& PrimeFactory<T>::nextPrime() {
+	PRIME_LOCK_GUARD
 	if (mNext == mPrimes.size()) {
-#ifdef THREAD_SAFE
-		std::lock_guard<std::mutex> guard(mPrimeMutex);
-#endif
 		mPrimes.emplace_back(detail::next_prime(mPrimes.back(), *this));
 	}
     return mPrimes[mNext++];
-- 
2.43.0


From 7890c9b4e361d42b2cdefaaa45e207ab2897ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:11 +0000
Subject: [PATCH 120/151] fix: write nested formulas, monomials and terms in
 SMT-LIB syntax

---
 src/carl-io/SMTLIBStream.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 95cd369..526e218 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -35,6 +35,17 @@ private:
 	void write(const cln::cl_RA& n) { *this << carl::toString(n, false); }
 #endif
 
+	/// Writes all elements in SMT-LIB syntax, separated by spaces.
+	template<typename T>
+	void write_joined(const T& elements) {
+		bool first = true;
+		for (const auto& e: elements) {
+			if (!first) *this << " ";
+			first = false;
+			*this << e;
+		}
+	}
+
 	template<typename Pol>
 	void write(const Constraint<Pol>& c) {
 		if (c.relation() == Relation::NEQ) {
@@ -53,7 +64,9 @@ private:
 			case FormulaType::XOR:
 			case FormulaType::IMPLIES:
 			case FormulaType::ITE:
-				*this << "(" << f.getType() << " " << stream_joined(" ", f.subformulas()) << ")";
+				*this << "(" << f.getType() << " ";
+				write_joined(f.subformulas());
+				*this << ")";
 				break;
 			case FormulaType::NOT:
 				*this << "(" << f.getType() << " " << f.subformula() << ")";
@@ -141,7 +154,9 @@ private:
 		if (m.exponents().empty()) *this << "1";
 		else if (m.exponents().size() == 1) *this << m.exponents().front();
 		else {
-			*this << "(* " << stream_joined(" ", m.exponents()) << ")";
+			*this << "(* ";
+			write_joined(m.exponents());
+			*this << ")";
 		}
 	}
 	
@@ -190,7 +205,9 @@ private:
 	}
 
 	void write(const UFInstance& ufi) {
-		*this << "(" << ufi.uninterpretedFunction().name() << " " << stream_joined(" ", ufi.args()) << ")";
+		*this << "(" << ufi.uninterpretedFunction().name() << " ";
+		write_joined(ufi.args());
+		*this << ")";
 	}
 	
 	template<typename Coeff>
-- 
2.43.0


From 4242b06d9f6ae7aabaf23f3e82ba22484aab4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 121/151] fix: write bit-vector terms, constraints and
 declarations in SMT-LIB syntax

---
 src/carl-io/SMTLIBStream.h | 48 ++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 526e218..9033380 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -11,6 +11,7 @@
 #include <carl/formula/Logic.h>
 #include <carl-model/Model.h>
 #include <carl/formula/Sort.h>
+#include <carl/formula/SortManager.h>
 #include <carl/numbers/numbers.h>
 #include <carl/util/tuple_util.h>
 #include <carl/io/streamingOperators.h>
@@ -55,6 +56,42 @@ private:
 		}
 	}
 	
+	void write(const BVTerm& t) {
+		switch (t.type()) {
+			case BVTermType::CONSTANT:
+				*this << t.value();
+				break;
+			case BVTermType::VARIABLE:
+				*this << t.variable();
+				break;
+			case BVTermType::EXTRACT:
+				*this << "((_ extract " << t.highest() << " " << t.lowest() << ") " << t.operand() << ")";
+				break;
+			case BVTermType::LROTATE:
+			case BVTermType::RROTATE:
+			case BVTermType::EXT_U:
+			case BVTermType::EXT_S:
+			case BVTermType::REPEAT:
+				*this << "((_ " << t.type() << " " << t.index() << ") " << t.operand() << ")";
+				break;
+			default:
+				if (typeIsUnary(t.type())) {
+					*this << "(" << t.type() << " " << t.operand() << ")";
+				} else {
+					*this << "(" << t.type() << " " << t.first() << " " << t.second() << ")";
+				}
+		}
+	}
+	void write(const BVConstraint& c) {
+		if (c.isAlwaysConsistent()) *this << "true";
+		else if (c.isAlwaysInconsistent()) *this << "false";
+		else if (c.relation() == BVCompareRelation::NEQ) {
+			*this << "(not (= " << c.lhs() << " " << c.rhs() << "))";
+		} else {
+			*this << "(" << c.relation() << " " << c.lhs() << " " << c.rhs() << ")";
+		}
+	}
+
 	template<typename Pol>
 	void write(const Formula<Pol>& f) {
 		switch (f.getType()) {
@@ -271,7 +308,7 @@ public:
 	}
 	/// Declare a bitvector variable via `declare-fun`.
 	void declare(BVVariable v) {
-		*this << "(declare-fun " << v.variable() << " () " << v.variable().type() << ")" << std::endl;
+		*this << "(declare-fun " << v.variable() << " () " << v.sort() << ")" << std::endl;
 	}
 	/// Declare an uninterpreted variable via `declare-fun`.
 	void declare(UVariable v) {
@@ -305,14 +342,15 @@ public:
 	void initialize(Logic l, const carlVariables& vars, const std::set<UninterpretedFunction>& ufs = {}, const std::set<BVVariable>& bvvs = {}, const std::set<UVariable>& uvs = {}) {
 		declare(l);
 		std::set<Sort> sorts;
-		for (const auto& v: bvvs) {
-			sorts.insert(v.sort());
-		}
 		for (const auto& v: uvs) {
 			sorts.insert(v.domain());
 		}
+		for (const auto& uf: ufs) {
+			sorts.insert(uf.domain().begin(), uf.domain().end());
+			sorts.insert(uf.codomain());
+		}
 		for (const auto& s: sorts) {
-			declare(s);
+			if (!SortManager::getInstance().isInterpreted(s)) declare(s);
 		}
 		declare(ufs);
 		declare(vars.filter(carl::variable_type_filter::excluding({VariableType::VT_BITVECTOR, VariableType::VT_UNINTERPRETED})));
-- 
2.43.0


From 5f231707e94ecdc782e60a1a3bbc5156fcafea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 122/151] fix: write truth values and functions of a model in
 SMT-LIB syntax

---
 src/carl-io/SMTLIBStream.h               | 13 ++++++-------
 src/carl-model/uninterpreted/UFModel.cpp |  3 +--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 9033380..dfa2dc2 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -29,6 +29,7 @@ class SMTLIBStream {
 private:
 	std::stringstream mStream;
 
+	void write(bool b) { *this << (b ? "true" : "false"); }
 	void write(const mpz_class& n) { *this << carl::toString(n, false); }
 	void write(const mpq_class& n) { *this << carl::toString(n, false); }
 #ifdef USE_CLN_NUMBERS
@@ -145,6 +146,10 @@ private:
 		for (const auto& m: model) {
 			auto value = m.second;
 			value = model.evaluated(m.first);
+			if (m.first.isFunction()) {
+				*this << "\t" << value << std::endl;
+				continue;
+			}
 			*this << "\t(define-fun " << m.first << " () ";
 			if (m.first.isVariable()) {
 				*this << m.first.asVariable().type() << std::endl;
@@ -152,8 +157,6 @@ private:
 				*this << m.first.asBVVariable().sort() << std::endl;
 			} else if (m.first.isUVariable()) {
 				*this << m.first.asUVariable().domain() << std::endl;
-			} else if (m.first.isFunction()) {
-				*this << value;
 			} else {
 				CARL_LOG_ERROR("carl.smtlibstream", "Encountered an unknown type of ModelVariable: " << m.first);
 				assert(false);
@@ -167,11 +170,7 @@ private:
 	
 	template<typename Rational, typename Poly>
 	void write(const ModelValue<Rational,Poly>& mv) {
-		if (mv.isBool()) {
-			*this << mv.asBool();
-		} else if (mv.isRational()) {
-			*this << mv.asRational();
-		}
+		mv.visit([this](const auto& v){ this->write(v); });
 	}
 
 	void write(const Monomial::Arg& m) {
diff --git a/src/carl-model/uninterpreted/UFModel.cpp b/src/carl-model/uninterpreted/UFModel.cpp
index 6a27954..c09b1d6 100644
--- a/src/carl-model/uninterpreted/UFModel.cpp
+++ b/src/carl-model/uninterpreted/UFModel.cpp
@@ -27,7 +27,6 @@ SortValue UFModel::get(const std::vector<SortValue>& args) const {
 }
 
 std::ostream& operator<<(std::ostream& os, const UFModel& ufm) {
-	assert(!ufm.values().empty());
 	os << "(define-fun " << ufm.function().name() << " (";
 	// Print function signature
 	std::size_t id = 1;
@@ -48,7 +47,7 @@ std::ostream& operator<<(std::ostream& os, const UFModel& ufm) {
 		}
 		os << ") " << instance.second << " ";
 	}
-	os << ufm.values().begin()->second;
+	os << defaultSortValue(ufm.function().codomain());
 	for (std::size_t i = 0; i < ufm.values().size(); ++i)
 		os << ")";
 	os << ")";
-- 
2.43.0


From 5391ec6df83934cb763b72dea74a201105d17c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 123/151] fix: export an unsatisfiable formula as an empty
 clause

---
 src/carl-io/DIMACSExporter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl-io/DIMACSExporter.h b/src/carl-io/DIMACSExporter.h
index dbc669d..ffca077 100644
--- a/src/carl-io/DIMACSExporter.h
+++ b/src/carl-io/DIMACSExporter.h
@@ -74,7 +74,8 @@ public:
 			return true;
 		}
 		if (f.getType() == FALSE) {
-			CARL_LOG_WARN("carl.dimacs", "Added FALSE to DIMACSExporter. Skipping...");
+			CARL_LOG_WARN("carl.dimacs", "Added FALSE to DIMACSExporter. Adding an empty clause...");
+			mClauses.emplace_back();
 			return true;
 		}
 		if (f.getType() == OR || f.getType() == BOOL || f.getType() == NOT) {
-- 
2.43.0


From 94902df2ce5ee79322fb6f72178619946c2569a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 124/151] fix: read DIMACS clauses that share a line or span
 several lines

---
 src/carl-io/DIMACSImporter.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/carl-io/DIMACSImporter.h b/src/carl-io/DIMACSImporter.h
index 75b35f8..6ab460b 100644
--- a/src/carl-io/DIMACSImporter.h
+++ b/src/carl-io/DIMACSImporter.h
@@ -23,25 +23,30 @@ private:
 	std::vector<Formula<Pol>> variables;
 	std::regex headerRegex;
 	
-	Formula<Pol> parseLine(const std::string& line) const {
-		std::vector<Formula<Pol>> vars;
+	/// Reads the literals of a line. A clause ends with 0, which may be on another line.
+	void parseLine(const std::string& line, std::vector<Formula<Pol>>& clause, std::vector<Formula<Pol>>& formulas) const {
 		const char* begin = line.c_str();
 		char* end = nullptr;
 		long long id;
 		while (true) {
 			id = std::strtoll(begin, &end, 10);
+			if (end == begin) break;
 			begin = end;
-			if (id == 0) break;
+			if (id == 0) {
+				formulas.emplace_back(OR, std::move(clause));
+				clause.clear();
+				continue;
+			}
 			Formula<Pol> v = variables.at(std::size_t(std::abs(id)-1));
-			if (id > 0) vars.emplace_back(v);
-			else vars.emplace_back(NOT, v);
+			if (id > 0) clause.emplace_back(v);
+			else clause.emplace_back(NOT, v);
 		}
-		return std::move(Formula<Pol>(OR, std::move(vars)));
 	}
 	
 	Formula<Pol> parseFormula() {
 		std::string line;
 		std::vector<Formula<Pol>> formulas;
+		std::vector<Formula<Pol>> clause;
 		while (!in.eof()) {
 			std::getline(in, line);
 			if (line == "") continue;
@@ -59,8 +64,10 @@ private:
 				}
 				continue;
 			}
-			formulas.push_back(parseLine(line));
+			parseLine(line, clause, formulas);
 		}
+		// The 0 of the last clause may be missing.
+		if (!clause.empty()) formulas.emplace_back(OR, std::move(clause));
 		return Formula<Pol>(AND, std::move(formulas));
 	}
 	
@@ -68,7 +75,7 @@ public:
 	/// Load the given file.
 	DIMACSImporter(const std::string& filename):
 		in(filename),
-		headerRegex("p cnf (\\d+) (\\d+)")
+		headerRegex("p\\s+cnf\\s+(\\d+)\\s+(\\d+)\\s*")
 	{}
 	
 	/// Checks if there is another formula to parse.
-- 
2.43.0


From 58f60fd15ae4e0f078cf61b36661e2aecc6f10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 125/151] fix: use the same variables in objective and
 constraints of an OPB file

---
 src/carl-io/OPBImporter.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl-io/OPBImporter.h b/src/carl-io/OPBImporter.h
index 51dd27e..faf824c 100644
--- a/src/carl-io/OPBImporter.h
+++ b/src/carl-io/OPBImporter.h
@@ -71,10 +71,7 @@ public:
 			constraints.emplace_back(std::move(pbc));
 		}
 		Formula<Pol> resC(FormulaType::AND, std::move(constraints));
-		Pol objective;
-		for (const auto& term: file->objective) {
-			objective += Number(term.first) * term.second;
-		}
+		Pol objective = convert(file->objective);
 		return std::make_pair(std::move(resC), std::move(objective));
 	}
 };
-- 
2.43.0


From 193ceb9672fb76b0b1ae0c382246d7894998d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 126/151] fix: let products bind stronger than sums when
 parsing polynomials

---
 src/carl/util/parser/PolynomialParser.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index efdbf4b..cc3f9b5 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -84,16 +84,15 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 	PolynomialParser():
 		PolynomialParser<Pol>::base_type(main, "polynomial"),
 		operation(), varmap(), varname(), number(),
-		variable(), monomial(), term(), polynomial(),
+		variable(), monomial(), term(),
 		expr(), expr_product(), expr_sum(), main()
 	{
 		operation.add("+", ADD)("-", SUB);
 		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%^&_=<>.?/")) > *(qi::alnum | qi::char_("~!@$%^&_=<>.?/"))];
-		variable = (varmap[qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&PolynomialParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
+		variable = (qi::lexeme[varmap >> !(qi::alnum | qi::char_("_"))][qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&PolynomialParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
 		term = (-number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
-		polynomial = (term >> *(operation >> term))[qi::_val = px::bind(&PolynomialParser<Pol>::addTerms, px::ref(*this), qi::_1, qi::_2)];
-		expr = ("(" >> expr_sum >> ")") | polynomial;
+		expr = ("(" >> expr_sum >> ")") | term[qi::_val = px::construct<Pol>(qi::_1)];
 		expr_product = (expr % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::mul, px::ref(*this), qi::_1)];
 		expr_sum = (expr_product >> *(operation >> expr_product))[qi::_val = px::bind(&PolynomialParser<Pol>::addPolynomials, px::ref(*this), qi::_1, qi::_2)];
 		main = expr_sum;
@@ -125,16 +124,6 @@ private:
 		CARL_LOG_ERROR("carl.parser", "Parsed an empty term.");
 		return Term<typename Pol::CoeffType>();
 	}
-	Pol addTerms(const Term<typename Pol::CoeffType>& first, const std::vector<boost::fusion::vector2<Operation,Term<typename Pol::CoeffType>>>& ops) {
-		Pol res(first);
-		for (const auto& op: ops) {
-			switch (boost::fusion::at_c<0>(op)) {
-			case ADD: res += boost::fusion::at_c<1>(op); break;
-			case SUB: res -= boost::fusion::at_c<1>(op); break;
-			}
-		}
-		return res;
-	}
 	Pol mul(const std::vector<Pol>& ops) {
 		Pol res(typename Pol::CoeffType(1));
 		for (const auto& op: ops) res *= op;
@@ -158,7 +147,6 @@ private:
 	qi::rule<Iterator, Variable(), Skipper> variable;
 	qi::rule<Iterator, Monomial::Arg(), Skipper> monomial;
 	qi::rule<Iterator, Term<typename Pol::CoeffType>(), Skipper> term;
-	qi::rule<Iterator, Pol(), Skipper, qi::locals<Pol>> polynomial;
 	qi::rule<Iterator, Pol(), Skipper> expr;
 	qi::rule<Iterator, Pol(), Skipper> expr_product;
 	qi::rule<Iterator, Pol(), Skipper, qi::locals<Pol>> expr_sum;
-- 
2.43.0


From c9621d53e95db96b467b5dcc47df7435ff468161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:12 +0000
Subject: [PATCH 127/151] fix: do not read a known name that is only a prefix
 when parsing formulas

---
 src/carl/util/parser/FormulaParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/parser/FormulaParser.h b/src/carl/util/parser/FormulaParser.h
index 98c578f..2565027 100644
--- a/src/carl/util/parser/FormulaParser.h
+++ b/src/carl/util/parser/FormulaParser.h
@@ -27,7 +27,7 @@ struct FormulaParser: public qi::grammar<Iterator, Formula<Pol>(), Skipper> {
         varname.name("varname");
 //        qi::debug(varname);
 
-		variable = (varmap[qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&FormulaParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
+		variable = (qi::lexeme[varmap >> !(qi::alnum | qi::char_("~!@$%^&*_+=<>.?/-"))][qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&FormulaParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
         variable.name("variable");
 //        qi::debug(variable);
 
-- 
2.43.0


From 7a48c7fee916b271d225d4de936040bbf03a0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:46 +0000
Subject: [PATCH 128/151] fix: read signs within products and report polynomial
 texts that are only read in part

---
 src/carl/util/parser/Parser.h           | 2 +-
 src/carl/util/parser/PolynomialParser.h | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/carl/util/parser/Parser.h b/src/carl/util/parser/Parser.h
index c8ac7ba..db3e4b3 100644
--- a/src/carl/util/parser/Parser.h
+++ b/src/carl/util/parser/Parser.h
@@ -28,7 +28,7 @@ private:
 	template<typename Result, typename Parser>
 	bool parse(const std::string& s, const Parser& parser, Result& res) {
 		auto begin = s.begin();
-		return qi::phrase_parse(begin, s.end(), parser, skipper, res);
+		return qi::phrase_parse(begin, s.end(), parser, skipper, res) && begin == s.end();
 	}
 public:
 	Parser():
diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index cc3f9b5..fcce43d 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -91,8 +91,10 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%^&_=<>.?/")) > *(qi::alnum | qi::char_("~!@$%^&_=<>.?/"))];
 		variable = (qi::lexeme[varmap >> !(qi::alnum | qi::char_("_"))][qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&PolynomialParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
-		term = (-number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
-		expr = ("(" >> expr_sum >> ")") | term[qi::_val = px::construct<Pol>(qi::_1)];
+		term = (&(number | variable) >> -number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
+		expr = ("(" >> expr_sum >> ")")[qi::_val = qi::_1]
+			| (operation >> expr)[qi::_val = px::bind(&PolynomialParser<Pol>::sign, px::ref(*this), qi::_1, qi::_2)]
+			| term[qi::_val = px::construct<Pol>(qi::_1)];
 		expr_product = (expr % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::mul, px::ref(*this), qi::_1)];
 		expr_sum = (expr_product >> *(operation >> expr_product))[qi::_val = px::bind(&PolynomialParser<Pol>::addPolynomials, px::ref(*this), qi::_1, qi::_2)];
 		main = expr_sum;
@@ -124,6 +126,9 @@ private:
 		CARL_LOG_ERROR("carl.parser", "Parsed an empty term.");
 		return Term<typename Pol::CoeffType>();
 	}
+	Pol sign(Operation op, const Pol& p) {
+		return op == SUB ? -p : p;
+	}
 	Pol mul(const std::vector<Pol>& ops) {
 		Pol res(typename Pol::CoeffType(1));
 		for (const auto& op: ops) res *= op;
-- 
2.43.0


From 6429ee89c2e22085393830438c74d3e258be9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:13 +0000
Subject: [PATCH 129/151] fix: read fractions as coefficients and exponents of
 new variables when parsing polynomials

---
 src/carl/util/parser/PolynomialParser.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index fcce43d..4347467 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -84,14 +84,15 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 	PolynomialParser():
 		PolynomialParser<Pol>::base_type(main, "polynomial"),
 		operation(), varmap(), varname(), number(),
-		variable(), monomial(), term(),
+		coefficient(), variable(), monomial(), term(),
 		expr(), expr_product(), expr_sum(), main()
 	{
 		operation.add("+", ADD)("-", SUB);
-		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%^&_=<>.?/")) > *(qi::alnum | qi::char_("~!@$%^&_=<>.?/"))];
+		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%&_=<>.?")) > *(qi::alnum | qi::char_("~!@$%&_=<>.?"))];
 		variable = (qi::lexeme[varmap >> !(qi::alnum | qi::char_("_"))][qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&PolynomialParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
-		term = (&(number | variable) >> -number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
+		coefficient = (number >> -("/" >> number))[qi::_pass = px::bind(&PolynomialParser<Pol>::newCoefficient, px::ref(*this), qi::_1, qi::_2, qi::_val)];
+		term = (&(number | variable) >> -coefficient >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
 		expr = ("(" >> expr_sum >> ")")[qi::_val = qi::_1]
 			| (operation >> expr)[qi::_val = px::bind(&PolynomialParser<Pol>::sign, px::ref(*this), qi::_1, qi::_2)]
 			| term[qi::_val = px::construct<Pol>(qi::_1)];
@@ -112,6 +113,12 @@ private:
 		varmap.add(s, v);
 		return v;
 	}
+	bool newCoefficient(const typename Pol::CoeffType& num, const boost::optional<typename Pol::CoeffType>& denom, typename Pol::CoeffType& res) const {
+		if (!denom) res = num;
+		else if (carl::isZero(*denom)) return false;
+		else res = num / *denom;
+		return true;
+	}
 	Monomial::Arg newMonomial(const std::vector<boost::fusion::vector2<Variable,typename Pol::CoeffType>>& data) const {
 		Monomial::Arg res;
 		for (const auto& term: data) {
@@ -149,6 +156,7 @@ private:
 	qi::symbols<char, Variable> varmap;
 	qi::rule<Iterator, std::string(), Skipper> varname;
 	qi::real_parser<typename Pol::CoeffType,RationalPolicies<typename Pol::CoeffType>> number;
+	qi::rule<Iterator, typename Pol::CoeffType(), Skipper> coefficient;
 	qi::rule<Iterator, Variable(), Skipper> variable;
 	qi::rule<Iterator, Monomial::Arg(), Skipper> monomial;
 	qi::rule<Iterator, Term<typename Pol::CoeffType>(), Skipper> term;
-- 
2.43.0


From 7d4e1ab91a54d5195859bfe1e3af782672236186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:38 +0000
Subject: [PATCH 130/151] fix: declare variables of the objective in SMT-LIB
 scripts

Scripts with an objective only declared the variables of the asserted
formulas. A variable that occurs in the objective alone stayed undeclared.
---
 src/carl-io/SMTLIBStream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index dfa2dc2..20c8098 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -357,9 +357,9 @@ public:
 		declare(uvs);
 	}
 	
-	/// Generic initializer including the logic and variables and functions from a set of formulas.
+	/// Generic initializer including the logic and variables and functions from a set of formulas and possibly an objective.
 	template<typename Pol>
-	void initialize(Logic l, std::initializer_list<Formula<Pol>> formulas) {
+	void initialize(Logic l, std::initializer_list<Formula<Pol>> formulas, const Pol& objective = Pol()) {
 		carlVariables vars;
 		std::set<UninterpretedFunction> ufs;
 		std::set<BVVariable> bvvs;
@@ -370,6 +370,7 @@ public:
 			f.gatherBVVariables(bvvs);
 			f.gatherUVariables(uvs);
 		}
+		carl::variables(objective, vars);
 		initialize(l, vars, ufs, bvvs, uvs);
 	}
 
@@ -450,7 +451,7 @@ struct SMTLIBScriptContainer {
 template<typename Pol>
 std::ostream& operator<<(std::ostream& os, const SMTLIBScriptContainer<Pol>& sc) {
 	SMTLIBStream sls;
-	sls.initialize(sc.mLogic, sc.mFormulas);
+	sls.initialize(sc.mLogic, sc.mFormulas, sc.mObjective);
 	for (const auto& f: sc.mFormulas) sls.assertFormula(f);
 	if (!isZero(sc.mObjective)) sls.minimize(sc.mObjective);
 	sls.checkSat();
-- 
2.43.0


From a601d4981cd0fde0d5fe0d7a320cab536dde0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:38 +0000
Subject: [PATCH 131/151] fix: let univariate polynomials be written in SMT-LIB
 notation

The monomials were built with a constructor that does not exist, so any use
failed to compile.
---
 src/carl-io/SMTLIBStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 20c8098..5f68476 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -255,7 +255,7 @@ private:
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << " (* " << coeff << " " << Monomial(up.mainVar(), exp) << ")";
+				else *this << " (* " << coeff << " " << createMonomial(up.mainVar(), exp) << ")";
 			}
 			*this << ")";
 		}
-- 
2.43.0


From 6c2295e50e6410e19015b0079e33dde5f91b41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:28 +0000
Subject: [PATCH 132/151] fix: read formula variables whose names begin with
 not

The formula parser took the first three letters of such a name for the
negation.
---
 src/carl/util/parser/FormulaParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/parser/FormulaParser.h b/src/carl/util/parser/FormulaParser.h
index 2565027..cbc311a 100644
--- a/src/carl/util/parser/FormulaParser.h
+++ b/src/carl/util/parser/FormulaParser.h
@@ -32,7 +32,7 @@ struct FormulaParser: public qi::grammar<Iterator, Formula<Pol>(), Skipper> {
 //        qi::debug(variable);
 
         formula_op =
-                ((qi::lit("not") | qi::lit("NOT")) > formula)[qi::_val = px::construct<Formula<Pol>>(FormulaType::NOT, qi::_1)]
+                (qi::lexeme[(qi::lit("not") | qi::lit("NOT")) >> !(qi::alnum | qi::char_("~!@$%^&*_+=<>.?/-"))] > formula)[qi::_val = px::construct<Formula<Pol>>(FormulaType::NOT, qi::_1)]
             |   formula[qi::_a = qi::_1] >> (
                     (binaryop > formula)[qi::_val = px::bind(&FormulaParser::createBinary, px::ref(*this), qi::_1, qi::_a, qi::_2)]
                 |   (+("AND" > formula))[qi::_val = px::bind(&FormulaParser::createNary, px::ref(*this), FormulaType::AND, qi::_a, qi::_1)]
-- 
2.43.0


From 2aee341f6c7bd4aa5b812cc15b34414e89486ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:28 +0000
Subject: [PATCH 133/151] fix: read powers with exponent zero

The polynomial parser built a monomial with exponent zero, which fails an
assertion.
---
 src/carl/util/parser/PolynomialParser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index 4347467..23a6ef0 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -122,7 +122,8 @@ private:
 	Monomial::Arg newMonomial(const std::vector<boost::fusion::vector2<Variable,typename Pol::CoeffType>>& data) const {
 		Monomial::Arg res;
 		for (const auto& term: data) {
-			res = res * createMonomial(boost::fusion::at_c<0>(term), exponent(carl::toInt<uint>(boost::fusion::at_c<1>(term))));
+			exponent exp = exponent(carl::toInt<uint>(boost::fusion::at_c<1>(term)));
+			if (exp > 0) res = res * createMonomial(boost::fusion::at_c<0>(term), exp);
 		}
 		return res;
 	}
-- 
2.43.0


From 8031afc5caa273913ac6633bf62a796ad956ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:53 +0000
Subject: [PATCH 134/151] fix: reject terms in which a variable occurs twice

The string parser looked for duplicates with std::unique but did not use its
result, so x*x became a monomial that lists x twice.
---
 src/carl/util/stringparser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index b8285a4..a2bb4e8 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -247,9 +247,7 @@ namespace carl
 			}
 			
 			std::sort(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first < p2.first; });
-			size_t nrVariables = varExpPairs.size();
-			std::unique(varExpPairs.begin(), varExpPairs.end());
-			if(nrVariables != varExpPairs.size())
+			if(std::adjacent_find(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first == p2.first; }) != varExpPairs.end())
 			{
 				throw InvalidInputStringException("Variable occurs twice", inputStr);
 			}
-- 
2.43.0


From 656fd14204c9a8e48a4d92bdb19cd715517e282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:53 +0000
Subject: [PATCH 135/151] fix: read powers with exponent zero in the string
 parser

They ended up in the monomial with exponent zero, which fails an assertion.
---
 src/carl/util/stringparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index a2bb4e8..2e4907a 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -227,7 +227,7 @@ namespace carl
 							try
 							{
 								unsigned exp = boost::lexical_cast<unsigned>(varAndExp.back());
-								varExpPairs.emplace_back(it->second, exp);
+								if(exp > 0) varExpPairs.emplace_back(it->second, exp);
 							}
 							catch(const boost::bad_lexical_cast&)
 							{
-- 
2.43.0


From 54118b168d7485503a80f71eff843905802916cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:46 +0000
Subject: [PATCH 136/151] fix: give the parsers' number policies a name of
 their own

The policies for unsigned numbers in polynomials and those for signed numbers
in the number parser were both called carl::parser::RationalPolicies. A
program that uses a polynomial parser could then no longer parse negative
numbers.
---
 src/carl/util/parser/Common.h           | 2 +-
 src/carl/util/parser/ExpressionParser.h | 2 +-
 src/carl/util/parser/PolynomialParser.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/util/parser/Common.h b/src/carl/util/parser/Common.h
index 0ec7d4e..b6d213b 100644
--- a/src/carl/util/parser/Common.h
+++ b/src/carl/util/parser/Common.h
@@ -37,7 +37,7 @@ template<typename Pol>
 using RatFun = RationalFunction<Pol>;
 
 template<typename Coeff>
-struct RationalPolicies : qi::ureal_policies<Coeff> {
+struct UnsignedRationalPolicies : qi::ureal_policies<Coeff> {
     template <typename It, typename Attr>
     static bool parse_nan(It&, It const&, Attr&) { return false; }
     template <typename It, typename Attr>
diff --git a/src/carl/util/parser/ExpressionParser.h b/src/carl/util/parser/ExpressionParser.h
index ebd9878..022f5c7 100644
--- a/src/carl/util/parser/ExpressionParser.h
+++ b/src/carl/util/parser/ExpressionParser.h
@@ -525,7 +525,7 @@ private:
 
 	qi::rule<Iterator, std::string(), Skipper> varname;
 	qi::uint_parser<exponent,10,1,-1> exponentVal;
-	qi::real_parser<CoeffType,RationalPolicies<CoeffType>> coeff;
+	qi::real_parser<CoeffType,UnsignedRationalPolicies<CoeffType>> coeff;
 	qi::rule<Iterator, Variable(), Skipper> variable;
 
 	qi::rule<Iterator, Operation(), Skipper> operationScaleLA;
diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index 23a6ef0..ccbb0aa 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -156,7 +156,7 @@ private:
 	qi::symbols<char, Operation> operation;
 	qi::symbols<char, Variable> varmap;
 	qi::rule<Iterator, std::string(), Skipper> varname;
-	qi::real_parser<typename Pol::CoeffType,RationalPolicies<typename Pol::CoeffType>> number;
+	qi::real_parser<typename Pol::CoeffType,UnsignedRationalPolicies<typename Pol::CoeffType>> number;
 	qi::rule<Iterator, typename Pol::CoeffType(), Skipper> coefficient;
 	qi::rule<Iterator, Variable(), Skipper> variable;
 	qi::rule<Iterator, Monomial::Arg(), Skipper> monomial;
-- 
2.43.0


From dbe7df296d29e97b568535866070636f26d574d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:52 +0000
Subject: [PATCH 137/151] fix: add and divide a rational function by itself in
 place

The operand was modified while it was still being read.
---
 src/carl-extpolys/RationalFunction.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 1a407d5..6e0f673 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -74,6 +74,7 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 template<typename Pol, bool AS>
 template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) return this->template add<byInverse>(RationalFunction<Pol, AS>(rhs));
 	if (this->isConstant() && rhs.isConstant()) {
 		if (byInverse)
 			this->mNumberQuotient -= rhs.mNumberQuotient;
@@ -262,6 +263,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator*=(carl::sint rhs)
 
 template<typename Pol, bool AS>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) return *this /= RationalFunction<Pol, AS>(rhs);
 	if (this->isConstant() && rhs.isConstant()) {
 		this->mNumberQuotient /= rhs.mNumberQuotient;
 		return *this;
-- 
2.43.0


From d96491880d7f7c9741589f3327961a117a16ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:52 +0000
Subject: [PATCH 138/151] fix: subtract a polynomial or variable from a
 constant rational function

The result had the wrong sign.
---
 src/carl-extpolys/RationalFunction.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 6e0f673..39dc53a 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -138,7 +138,7 @@ template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const Pol& rhs) {
 	if (this->isConstant()) {
 		CoeffType c = this->mNumberQuotient;
-		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(getDenom(c)) - CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
+		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(-getDenom(c)) + CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
@@ -159,9 +159,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(Variable rhs) {
 		Pol resultNum(rhs);
 		resultNum *= CoeffType(getDenom(c));
 		if (byInverse)
-			resultNum -= CoeffType(getNum(c));
-		else
-			resultNum += CoeffType(getNum(c));
+			resultNum *= CoeffType(-1);
+		resultNum += CoeffType(getNum(c));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
-- 
2.43.0


From 38e983133e949a7b51e19a111a2272549f7a1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:52 +0000
Subject: [PATCH 139/151] fix: simplify rational functions after division by a
 number

The quotient was left unnormalized, and simplify() did not mark a function
with constant denominator as simplified.
---
 src/carl-extpolys/RationalFunction.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 39dc53a..ba9ddcc 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -60,6 +60,8 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 		mPolynomialQuotient->first *= cpFactorNom;
 		mPolynomialQuotient->second *= cpFactorDen;
 		cpFactor *= cpFactorDen / cpFactorNom;
+	}
+	if (!_justNormalize) {
 		mIsSimplified = true;
 	}
 	mPolynomialQuotient->first *= carl::getNum(cpFactor);
@@ -297,8 +299,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const Pol& rhs)
 		mPolynomialQuotient->first /= rhs.constantPart();
 	} else {
 		mPolynomialQuotient->second *= rhs;
-		eliminateCommonFactor(!AS);
 	}
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
@@ -326,6 +328,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(unsigned long r
 	}
 	mIsSimplified = false;
 	mPolynomialQuotient->first /= rhs;
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
@@ -337,6 +340,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const typename
 	}
 	mIsSimplified = false;
 	mPolynomialQuotient->first /= rhs;
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
-- 
2.43.0


From fc57dbdb00430ac8a693e4004c143cb667ed04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:23 +0000
Subject: [PATCH 140/151] fix: normalize the inverse of a rational function

A negative leading coefficient of the numerator became one of the
denominator, so that equal functions compared unequal.
---
 src/carl-extpolys/RationalFunction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/RationalFunction.h b/src/carl-extpolys/RationalFunction.h
index 40d393a..d9706f9 100644
--- a/src/carl-extpolys/RationalFunction.h
+++ b/src/carl-extpolys/RationalFunction.h
@@ -178,7 +178,10 @@ public:
 		if (isConstant()) {
 			return RationalFunction(boost::none, 1 / mNumberQuotient, mIsSimplified);
 		} else {
-			return RationalFunction(boost::optional<std::pair<Pol, Pol>>(std::pair<Pol, Pol>(mPolynomialQuotient->second, mPolynomialQuotient->first)), carl::constant_zero<CoeffType>().get(), mIsSimplified);
+			RationalFunction res(boost::optional<std::pair<Pol, Pol>>(std::pair<Pol, Pol>(mPolynomialQuotient->second, mPolynomialQuotient->first)), carl::constant_zero<CoeffType>().get(), false);
+			res.eliminateCommonFactor(true);
+			res.mIsSimplified = mIsSimplified;
+			return res;
 		}
 	}
 
-- 
2.43.0


From 7f497b0aff3a78975bbf30867c30cf74c6731ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:24 +0000
Subject: [PATCH 141/151] fix: normalize rational functions built from a
 polynomial

x/2 built from the polynomial differed from x/2 built by division.
---
 src/carl-extpolys/RationalFunction.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.h b/src/carl-extpolys/RationalFunction.h
index d9706f9..b5bf84a 100644
--- a/src/carl-extpolys/RationalFunction.h
+++ b/src/carl-extpolys/RationalFunction.h
@@ -50,20 +50,26 @@ public:
 
 	explicit RationalFunction(const Pol& p)
 		: mNumberQuotient(),
-		  mIsSimplified(true) {
+		  mIsSimplified(p.isConstant()) {
 		if (p.isConstant())
 			mNumberQuotient = p.constantPart();
-		else
+		else {
 			mPolynomialQuotient = std::pair<Pol, Pol>(p, std::move(Pol(1)));
+			eliminateCommonFactor(true);
+			mIsSimplified = true;
+		}
 	}
 
 	explicit RationalFunction(Pol&& p)
 		: mNumberQuotient(),
-		  mIsSimplified(true) {
+		  mIsSimplified(p.isConstant()) {
 		if (p.isConstant())
 			mNumberQuotient = p.constantPart();
-		else
+		else {
 			mPolynomialQuotient = std::pair<Pol, Pol>(std::move(p), std::move(Pol(1)));
+			eliminateCommonFactor(true);
+			mIsSimplified = true;
+		}
 	}
 
 	explicit RationalFunction(const Pol& nom, const Pol& denom)
-- 
2.43.0


From 5ca5ff806f8e4b1ed4da19d9528e329685e3a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:10 +0000
Subject: [PATCH 142/151] fix: compare the coefficients of unequal factorized
 polynomials

operator!= took x and 2x to be equal.
---
 src/carl-extpolys/FactorizedPolynomial.tpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index cb1b4b0..cba8238 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -713,15 +713,7 @@ namespace carl
     bool operator!=( const FactorizedPolynomial<P>& _lhs, const FactorizedPolynomial<P>& _rhs )
     {
         ASSERT_CACHE_EQUAL( _lhs.pCache(), _rhs.pCache() );
-        if( _lhs.pCache() == nullptr && _rhs.pCache() == nullptr )
-        {
-            return _lhs.coefficient() != _rhs.coefficient();
-        }
-        else if( _lhs.pCache() != nullptr && _rhs.pCache() != nullptr )
-        {
-            return !(_lhs.content() == _rhs.content());
-        }
-        return true;
+        return !(_lhs == _rhs);
     }
     
     template<typename P>
-- 
2.43.0


From 309a5d8404a918b9ad412a6039e79608cfc6c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:10 +0000
Subject: [PATCH 143/151] fix: divide factorized polynomials whose factors are
 not refined

The quotient of x^2, known as one factor, and x was x^2.
---
 src/carl-extpolys/FactorizedPolynomial.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index cba8238..d83402a 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -1032,7 +1032,14 @@ namespace carl
             assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
             return result;
         }
-        FactorizedPolynomial<P> result = lazyDiv( *this, _fdivisor ).first;
+        std::pair<FactorizedPolynomial<P>,FactorizedPolynomial<P>> ret = lazyDiv( *this, _fdivisor );
+        FactorizedPolynomial<P> result( ret.first );
+        if( !ret.second.isOne() )
+        {
+            // The divisor is not among the known factors.
+            P q = carl::quotient( computePolynomial( *this ), computePolynomial( _fdivisor ) );
+            result = q.isConstant() ? FactorizedPolynomial<P>( q.constantPart() ) : FactorizedPolynomial<P>( q, mpCache );
+        }
         assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
         return result;
     }
-- 
2.43.0


From 39470f7cd7361a68879d8b38f8ba5881b34eb743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:26 +0000
Subject: [PATCH 144/151] fix: keep the coefficients of substituted factors

---
 src/carl-extpolys/substitution.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/carl-extpolys/substitution.h b/src/carl-extpolys/substitution.h
index 68997b6..5c66281 100644
--- a/src/carl-extpolys/substitution.h
+++ b/src/carl-extpolys/substitution.h
@@ -67,7 +67,8 @@ FactorizedPolynomial<P> substitute(const FactorizedPolynomial<P>& p, const std::
 				resultCoeff *= carl::pow(subResult.constantPart(), factor.second);
 			} else {
 				// Add substituted polynomial into factorization
-				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult, factor.second));
+				resultCoeff *= carl::pow(subResult.coefficient(), factor.second);
+				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult.coprimeCoefficients(), factor.second));
 			}
 		}
 		FactorizedPolynomial<P> result(std::move(resultFactorization), resultCoeff, p.pCache());
@@ -111,7 +112,8 @@ FactorizedPolynomial<P> substitute(const FactorizedPolynomial<P>& p, const std::
 				resultCoeff *= carl::pow(subResult.constantPart(), factor.second);
 			} else {
 				// Add substituted polynomial into factorization
-				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult, factor.second));
+				resultCoeff *= carl::pow(subResult.coefficient(), factor.second);
+				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult.coprimeCoefficients(), factor.second));
 			}
 		}
 		FactorizedPolynomial<P> result(std::move(resultFactorization), resultCoeff, p.pCache());
-- 
2.43.0


From 74d851eaf41937f3986f170d8aabef6f36ed854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:03 +0000
Subject: [PATCH 145/151] fix: flatten factorizations into a power of one
 polynomial

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 07646a7..2a197bc 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -318,6 +318,11 @@ namespace carl
                 ft = mFactorization.erase(ft);
             }
         }
+        if( mpPolynomial == nullptr && mFactorization.size() == 1 )
+        {
+            // The factors turned out to be powers of the same polynomial
+            mpPolynomial = new P( computePolynomial( mFactorization ) );
+        }
         assert( assertFactorization() );
         return result;
     }
-- 
2.43.0


From f09882edb8c8243a7158145d476642b0a8fd569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:05 +0000
Subject: [PATCH 146/151] fix: remove a stray brace from the gcd of terms

---
 src/carl/core/polynomialfunctions/GCD_Term.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_Term.h b/src/carl/core/polynomialfunctions/GCD_Term.h
index 1ef3460..3eebbe6 100644
--- a/src/carl/core/polynomialfunctions/GCD_Term.h
+++ b/src/carl/core/polynomialfunctions/GCD_Term.h
@@ -27,5 +27,3 @@ Term<Coeff> gcd(const Term<Coeff>& t1, const Term<Coeff>& t2) {
 	);
 }
 }
-
-}
\ No newline at end of file
-- 
2.43.0


From 4ee6c91019df57f511da59c356e3e30bc475080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:49 +0000
Subject: [PATCH 147/151] fix: compute derivative factors in the coefficient
 type

The factor n*(n-1)*...*(n-k+1) of a k-th derivative was computed in size_t.
It wrapped around silently for high orders, for example the 21st derivative of x^21.
---
 src/carl/core/polynomialfunctions/Derivative.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Derivative.h b/src/carl/core/polynomialfunctions/Derivative.h
index 64872e2..647ac13 100644
--- a/src/carl/core/polynomialfunctions/Derivative.h
+++ b/src/carl/core/polynomialfunctions/Derivative.h
@@ -14,6 +14,12 @@ namespace detail_derivative {
 		for (; k > 0; --k) res *= n - k + 1;
 		return res;
 	}
+	/// Returns c * n * (n-1) * ... * (n-k+1), computed in the type of c as the factor may be large.
+	template<typename C>
+	inline C multiply(C c, std::size_t n, std::size_t k) {
+		for (; k > 0; --k) c = c * static_cast<C>(n - k + 1);
+		return c;
+	}
 }
 
 /**
@@ -74,7 +80,9 @@ Term<C> derivative(const Term<C>& t, Variable v, std::size_t n = 1) {
 	if (n == 0) return t;
 	if (t.monomial()) {
 		auto newm = carl::derivative(t.monomial(), v, n);
-		return Term<C>(t.coeff() * newm.first, newm.second);
+		std::size_t exp = t.monomial()->exponentOfVariable(v);
+		if (exp < n) return Term<C>();
+		return Term<C>(detail_derivative::multiply(t.coeff(), exp, n), newm.second);
 	} else {
 		return Term<C>();
 	}
@@ -112,8 +120,7 @@ UnivariatePolynomial<C> derivative(const UnivariatePolynomial<C>& p, std::size_t
 
 	std::vector<C> newCoeffs;
 	for (std::size_t i = 0; i < p.degree() + 1 - n; ++i) {
-		std::size_t factor = detail_derivative::multiply(n + i, n);
-		newCoeffs.emplace_back(static_cast<C>(factor) * p.coefficients()[i + n]);
+		newCoeffs.emplace_back(detail_derivative::multiply(p.coefficients()[i + n], n + i, n));
 	}
 	CARL_LOG_DEBUG("carl.core", "derivative(" << p << ", " << n << ") = " << UnivariatePolynomial<C>(p.mainVar(), newCoeffs));
 	return UnivariatePolynomial<C>(p.mainVar(), std::move(newCoeffs));
-- 
2.43.0


From 5e27b333bab993b566f082011724cf405611c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:12 +0000
Subject: [PATCH 148/151] fix: represent quantifiers and other atoms when
 searching for symmetries

---
 src/carl/formula/symmetry/SymmetryFinder.h | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/symmetry/SymmetryFinder.h b/src/carl/formula/symmetry/SymmetryFinder.h
index a2c85eb..4bfb15f 100644
--- a/src/carl/formula/symmetry/SymmetryFinder.h
+++ b/src/carl/formula/symmetry/SymmetryFinder.h
@@ -35,6 +35,7 @@ private:
 	std::map<Number, unsigned> mConst;
 	std::map<SpecialColors, unsigned> mSpecial;
 	std::map<std::size_t, unsigned> mIndexes;
+	std::map<std::size_t, unsigned> mAtoms;
 	
 	template<typename T>
 	unsigned findOrInsert(std::map<T,unsigned>& container, const T& value) {
@@ -64,6 +65,10 @@ public:
 	unsigned operator()(std::size_t v) {
 		return findOrInsert(mIndexes, v);
 	}
+	template<typename Poly>
+	unsigned operator()(const Formula<Poly>& f) {
+		return findOrInsert(mAtoms, f.getId());
+	}
 };
 
 struct Permutation {
@@ -129,6 +134,12 @@ class GraphBuilder {
 			}
 			case carl::FormulaType::EXISTS:
 			case carl::FormulaType::FORALL:
+				for (const auto& v: f.quantifiedVariables()) {
+					auto it = mVariableIDs.find(v);
+					if (it != mVariableIDs.end()) mGraph.add_edge(vert, it->second);
+				}
+				mGraph.add_edge(vert, addFormula(f.quantifiedFormula()));
+				break;
 			case carl::FormulaType::TRUE:
 			case carl::FormulaType::FALSE:
 				break;
@@ -163,8 +174,21 @@ class GraphBuilder {
 			case carl::FormulaType::VARCOMPARE:
 			case carl::FormulaType::VARASSIGN:
 			case carl::FormulaType::BITVECTOR:
-			case carl::FormulaType::UEQ:
+			case carl::FormulaType::UEQ: {
+				// The structure of these is not represented, hence they are only mapped to themselves.
+				unsigned atom = mGraph.add_vertex(mColor(f));
+				mGraph.add_edge(vert, atom);
+				carlVariables vars;
+				f.gatherVariables(vars);
+				std::size_t cur = 1;
+				for (const auto& v: vars) {
+					unsigned idvert = mGraph.add_vertex(mColor(cur));
+					mGraph.add_edge(atom, idvert);
+					mGraph.add_edge(idvert, mVariableIDs[v]);
+					cur++;
+				}
 				break;
+			}
 		}
 		return vert;
 	}
-- 
2.43.0


From 7e3c70fff80b2185ccf789fb700cb3501ee26a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:12 +0000
Subject: [PATCH 149/151] fix: do not update the sign determination of an empty
 zero set

---
 src/carl/ran/thom/SignDetermination/SignDetermination.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/ran/thom/SignDetermination/SignDetermination.h b/src/carl/ran/thom/SignDetermination/SignDetermination.h
index 2735b4b..0e91b78 100644
--- a/src/carl/ran/thom/SignDetermination/SignDetermination.h
+++ b/src/carl/ran/thom/SignDetermination/SignDetermination.h
@@ -284,8 +284,6 @@ private:
 			std::list<uint>& adaHelper,
 			Eigen::MatrixXf& matrix
 	) {
-		if(mNeedsUpdate) this->update();
-		
 		CARL_LOG_TRACE("carl.thom.sign", "processing " << p);
 		std::list<Polynomial> currProducts;
 		TaQResType taq0 = mTaQ(Number(1));
@@ -294,6 +292,7 @@ private:
 			CARL_LOG_WARN("carl.thom.sign", "doing sign determination on an empty zero set");
 			return {};
 		}
+		if(mNeedsUpdate) this->update();
 		
 		// (1) determine sign conditions realized by p on the zero set
 		//     and an corrspoding adapted list
-- 
2.43.0


From 0fe0c06307f790941debbe421f0cf894fc0f8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:38 +0000
Subject: [PATCH 150/151] fix: write nested formulas and monomials in the
 notation of Maple and QEPCAD

---
 src/carl-io/MapleStream.h  | 16 +++++++++++++---
 src/carl-io/QEPCADStream.h | 13 +++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/carl-io/MapleStream.h b/src/carl-io/MapleStream.h
index 2d95013..7a126e4 100644
--- a/src/carl-io/MapleStream.h
+++ b/src/carl-io/MapleStream.h
@@ -28,7 +28,12 @@ private:
 	
 	template<typename Pol>
 	void write(const Formulas<Pol>& f, const std::string& op) {
-		*this << carl::stream_joined(" " + op + " ", f);
+		bool first = true;
+		for (const auto& sub: f) {
+			if (!first) *this << " " << op << " ";
+			first = false;
+			*this << "(" << sub << ")";
+		}
 	}
 	
 	template<typename Pol>
@@ -97,7 +102,12 @@ private:
 		if (m.exponents().empty()) *this << "1";
 		else if (m.exponents().size() == 1) *this << m.exponents().front();
 		else {
-			*this << carl::stream_joined("*", m.exponents());
+			bool first = true;
+			for (const auto& e: m.exponents()) {
+				if (!first) *this << "*";
+				first = false;
+				*this << e;
+			}
 		}
 	}
 	
@@ -145,7 +155,7 @@ private:
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << "(" << coeff << ")*" << Monomial(up.mainVar(), exp);
+				else *this << "(" << coeff << ")*" << createMonomial(up.mainVar(), exp);
 			}
 		}
 	}
diff --git a/src/carl-io/QEPCADStream.h b/src/carl-io/QEPCADStream.h
index b34f5d4..4f1a704 100644
--- a/src/carl-io/QEPCADStream.h
+++ b/src/carl-io/QEPCADStream.h
@@ -32,7 +32,12 @@ private:
 	
 	template<typename Pol>
 	void write(const Formulas<Pol>& f, const std::string& op) {
-		*this << carl::stream_joined(" " + op + " ", f);
+		bool first = true;
+		for (const auto& sub: f) {
+			if (!first) *this << " " << op << " ";
+			first = false;
+			*this << "[ " << sub << " ]";
+		}
 	}
 	
 	template<typename Pol>
@@ -57,7 +62,7 @@ private:
 			case FormulaType::ITE:
 				assert(false);
 			case FormulaType::NOT:
-				*this << "~ " << f.subformula();
+				*this << "~ [ " << f.subformula() << " ]";
 				break;
 			case FormulaType::BOOL:
 				*this << f.boolean();
@@ -103,7 +108,7 @@ private:
 		if (m.exponents().empty()) *this << "1";
 		else if (m.exponents().size() == 1) *this << m.exponents().front();
 		else {
-			*this << " " << carl::stream_joined(" ", m.exponents());
+			for (const auto& e: m.exponents()) *this << " " << e;
 		}
 	}
 	
@@ -151,7 +156,7 @@ private:
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << "(" << coeff << ") " << Monomial(up.mainVar(), exp);
+				else *this << "(" << coeff << ") " << createMonomial(up.mainVar(), exp);
 			}
 		}
 	}
-- 
2.43.0


From c4422a6714fa9ecef10e473c0bb1c0bd0ca37317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:06:32 +0000
Subject: [PATCH 151/151] fix: enclose the values of elementary functions on
 intervals

---
 src/carl/interval/exponential.h   |  9 ++--
 src/carl/interval/trigonometric.h | 76 ++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/carl/interval/exponential.h b/src/carl/interval/exponential.h
index 3edd7d7..7bf92ca 100644
--- a/src/carl/interval/exponential.h
+++ b/src/carl/interval/exponential.h
@@ -3,6 +3,7 @@
 #include "Interval.h"
 
 #include <cassert>
+#include <limits>
 
 namespace carl {
 
@@ -15,19 +16,21 @@ Interval<Number> exp(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void exp_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::exp(i.rContent()));
+	i = carl::exp(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> log(const Interval<Number>& i) {
 	assert(i.isConsistent() && i.isSemiPositive());
-	return Interval<Number>(boost::numeric::log(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	typename Interval<Number>::BoostInterval content = i.rContent();
+	if (i.upperBoundType() == BoundType::INFTY) content = typename Interval<Number>::BoostInterval(i.lower(), std::numeric_limits<Number>::infinity());
+	return Interval<Number>(boost::numeric::log(content), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void log_assign(Interval<Number>& i) {
 	assert(i.isConsistent() && i.isSemiPositive());
-	i.set(boost::numeric::log(i.rContent()));
+	i = carl::log(i);
 }
 
 }
\ No newline at end of file
diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 17c1072..8ce293f 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -3,67 +3,97 @@
 #include "Interval.h"
 
 #include <cassert>
+#include <limits>
 
 namespace carl {
 
+namespace detail {
+	/// The boost interval for i where missing bounds are infinite.
+	template<typename Number>
+	typename Interval<Number>::BoostInterval infinite_content(const Interval<Number>& i) {
+		const Number inf = std::numeric_limits<Number>::infinity();
+		return typename Interval<Number>::BoostInterval(
+			i.lowerBoundType() == BoundType::INFTY ? -inf : i.lower(),
+			i.upperBoundType() == BoundType::INFTY ? inf : i.upper()
+		);
+	}
+
+	/// The standard library does not respect the rounding mode for all arguments, which may swap bounds that are close to each other.
+	template<typename BoostInterval>
+	BoostInterval ordered(const BoostInterval& b) {
+		return (b.lower() > b.upper()) ? BoostInterval(b.upper(), b.lower()) : b;
+	}
+}
+
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::sin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	if (i.lowerBoundType() == BoundType::INFTY || i.upperBoundType() == BoundType::INFTY) {
+		return Interval<Number>(Number(-1), BoundType::WEAK, Number(1), BoundType::WEAK);
+	}
+	// The extrema may be attained inside of i.
+	return Interval<Number>(boost::numeric::sin(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sin_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::sin(i.rContent()));
+	i = carl::sin(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	if (i.lowerBoundType() == BoundType::INFTY || i.upperBoundType() == BoundType::INFTY) {
+		return Interval<Number>(Number(-1), BoundType::WEAK, Number(1), BoundType::WEAK);
+	}
+	// The extrema may be attained inside of i.
+	return Interval<Number>(boost::numeric::cos(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cos(i.rContent()));
+	i = carl::cos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tan(const Interval<Number>& i) {
 	assert(i.isConsistent());
+	if (i.lowerBoundType() == BoundType::INFTY || i.upperBoundType() == BoundType::INFTY) {
+		return Interval<Number>::unboundedInterval();
+	}
 	return Interval<Number>(boost::numeric::tan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void tan_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::tan(i.rContent()));
+	i = carl::tan(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::asin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(detail::ordered(boost::numeric::asin(detail::infinite_content(i))), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void asin_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::asin(i.rContent()));
+	i = carl::asin(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::acos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(boost::numeric::acos(detail::infinite_content(i)), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void acos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::acos(i.rContent()));
+	i = carl::acos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -75,79 +105,81 @@ Interval<Number> atan(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void atan_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::atan(i.rContent()));
+	i = carl::atan(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::sinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(detail::ordered(boost::numeric::sinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sinh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::sinh(i.rContent()));
+	i = carl::sinh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	// The function is not monotone.
+	return Interval<Number>(boost::numeric::cosh(detail::infinite_content(i)), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cosh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cosh(i.rContent()));
+	i = carl::cosh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::tanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(detail::ordered(boost::numeric::tanh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void tanh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::tanh(i.rContent()));
+	i = carl::tanh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::asinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(detail::ordered(boost::numeric::asinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void asinh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::asinh(i.rContent()));
+	i = carl::asinh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::acosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	// The minimum may be attained inside of i.
+	return Interval<Number>(detail::ordered(boost::numeric::acosh(detail::infinite_content(i))), BoundType::WEAK, i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void acosh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::acosh(i.rContent()));
+	i = carl::acosh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> atanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::atanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(detail::ordered(boost::numeric::atanh(detail::infinite_content(i))), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void atanh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::atanh(i.rContent()));
+	i = carl::atanh(i);
 }
 
 }
\ No newline at end of file
-- 
2.43.0

