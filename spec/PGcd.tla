--------------------------------- MODULE PGcd ---------------------------------
(* Divisors of multivariate polynomials.  That two polynomials have no common  *)
(* factor is shown by specialisations: a factor with x_i survives setting the  *)
(* other variables to numbers at which the leading coefficients do not vanish. *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder, UniLib
RECURSIVE PGDiv(_, _, _)
PGDiv(p, d, q) ==
  IF PIsZero(p) THEN <<TRUE, q>>
  ELSE LET m == LeadMon(p) n == LeadMon(d) IN
       IF \A i \in DOMAIN m : m[i] >= n[i]
       THEN LET t == PMono([i \in DOMAIN m |-> m[i] - n[i]], QDiv(p[m], d[n])) IN PGDiv(PSub(p, PMul(t, d)), d, PAdd(q, t))
       ELSE <<FALSE, q>>
PGDivides(d, p) == ~PIsZero(d) /\ PGDiv(p, d, PZero)[1]
PGQuo(p, d) == PGDiv(p, d, PZero)[2]
PGAssoc(p, q) == PIsZero(p) = PIsZero(q) /\ (~PIsZero(p) => PScale(LeadCoef(q), p) = PScale(LeadCoef(p), q))
Points == <<<<"101", "-67", "211", "13", "-29">>, <<"-3", "1009", "17", "-523", "71">>, <<"7/3", "-11", "-401", "37", "5">>, <<"2", "3", "5", "7", "11">>>>
Special(nv, p, i, v) == [k \in 1..(PDegIn(p, i) + 1) |-> PConstVal(PEvalFrom(nv, PCoeffIn(p, i, k - 1), v, 1))]
\* no common factor with x_i
PGCoprimeIn(nv, p, q, i) == \E k \in DOMAIN Points :
  LET a == UTrim(Special(nv, p, i, Points[k])) b == UTrim(Special(nv, q, i, Points[k])) IN
  /\ Len(a) = PDegIn(p, i) + 1 /\ Len(b) = PDegIn(q, i) + 1
  /\ Len(UGcd(a, b)) = 1
PGCoprime(nv, p, q) == \A i \in PVars(p) \cap PVars(q) : PGCoprimeIn(nv, p, q, i)
\* g is a greatest common divisor of p and q (not zero)
PGIsGcd(nv, g, p, q) == PGDivides(g, p) /\ PGDivides(g, q) /\ PGCoprime(nv, PGQuo(p, g), PGQuo(q, g))
\* l is a least common multiple
PGIsLcm(nv, l, p, q) == PGDivides(p, l) /\ PGDivides(q, l) /\ PGCoprime(nv, PGQuo(l, p), PGQuo(l, q))
===============================================================================
