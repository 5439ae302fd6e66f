-------------------------------- MODULE Poly --------------------------------
(* PolyPure with the expensive operators overridden by java/Poly.java, and  *)
(* what the specifications need on top of them.                             *)
EXTENDS Integers, Sequences, FiniteSets, Q
LOCAL P == INSTANCE PolyPure

PAdd(p, q) == P!PAdd(p, q)
PSub(p, q) == P!PSub(p, q)
PScale(c, p) == P!PScale(c, p)
PMul(p, q) == P!PMul(p, q)
PPow(nv, p, n) == P!PPow(nv, p, n)
PSubst(nv, p, i, q) == P!PSubst(nv, p, i, q)

MMul(a, b) == P!MMul(a, b)
MDivides(a, b) == P!MDivides(a, b)
MDiv(b, a) == P!MDiv(b, a)
MOne(nv) == [i \in 1..nv |-> 0]
MVar(nv, i) == [j \in 1..nv |-> IF j = i THEN 1 ELSE 0]
MLcm(a, b) == [i \in 1..Len(a) |-> IF a[i] >= b[i] THEN a[i] ELSE b[i]]
MGcd(a, b) == [i \in 1..Len(a) |-> IF a[i] <= b[i] THEN a[i] ELSE b[i]]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MDeg(m) == SumSeq(m)
MPow(m, n) == [i \in 1..Len(m) |-> m[i] * n]
MVars(m) == {i \in 1..Len(m) : m[i] # 0}

Coef(p, m) == P!Coef(p, m)
PZero == <<>>
PNeg(p) == PScale("-1", p)
PMono(m, c) == IF c = "0" THEN <<>> ELSE [x \in {m} |-> c]
PConst(nv, c) == PMono(MOne(nv), c)
PVar(nv, i) == PMono(MVar(nv, i), "1")
PIsZero(p) == DOMAIN p = {}
PIsConst(p) == \A m \in DOMAIN p : MDeg(m) = 0
\* Value of a constant polynomial.
PConstVal(p) == IF PIsZero(p) THEN "0" ELSE p[CHOOSE m \in DOMAIN p : TRUE]
PConstPart(nv, p) == Coef(p, MOne(nv))
PVars(p) == UNION {MVars(m) : m \in DOMAIN p}

IMax(S) == CHOOSE x \in S : \A y \in S : y <= x
IMin(S) == CHOOSE x \in S : \A y \in S : x <= y
PDeg(p) == IF PIsZero(p) THEN 0 ELSE IMax({MDeg(m) : m \in DOMAIN p})
PDegIn(p, i) == IF PIsZero(p) THEN 0 ELSE IMax({m[i] : m \in DOMAIN p})
PDeriv(p, i) == LET D == {m \in DOMAIN p : m[i] > 0}
                    Lower(m) == [m EXCEPT ![i] = m[i] - 1]
                IN  [x \in {Lower(m) : m \in D} |->
                        LET m == [x EXCEPT ![i] = x[i] + 1] IN QMul(QOfInt(m[i]), p[m])]
\* Coefficient of variable i to the power k, a polynomial in the other variables.
PCoeffIn(p, i, k) == LET D == {m \in DOMAIN p : m[i] = k}
                     IN  [x \in {[m EXCEPT ![i] = 0] : m \in D} |-> p[[x EXCEPT ![i] = k]]]
PTimesVarPow(p, i, k) == [x \in {[m EXCEPT ![i] = m[i] + k] : m \in DOMAIN p} |-> p[[x EXCEPT ![i] = x[i] - k]]]
PEvalVar(nv, p, i, c) == PSubst(nv, p, i, PConst(nv, c))
RECURSIVE PEvalFrom(_, _, _, _)
PEvalFrom(nv, p, a, i) == IF i > nv THEN p ELSE PEvalFrom(nv, PEvalVar(nv, p, i, a[i]), a, i + 1)
\* Value at the point a (one number per variable).
PEval(nv, p, a) == PConstVal(PEvalFrom(nv, p, a, 1))

\* The wire form of a polynomial is a list of <<monomial, coefficient>>.
PWellFormed(nv, s) ==
  /\ \A i \in 1..Len(s) : Len(s[i][1]) = nv /\ s[i][2] # "0" /\ \A k \in 1..nv : s[i][1][k] >= 0
  /\ Cardinality({s[i][1] : i \in 1..Len(s)}) = Len(s)
PRead(s) == LET M == {s[i][1] : i \in 1..Len(s)}
            IN  [m \in M |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = m][2]]
\* Sum of the listed terms: what a list with repeated monomials or zeros denotes.
RECURSIVE PSumList(_)
PSumList(s) == IF s = <<>> THEN <<>> ELSE PAdd(PMono(Head(s)[1], Head(s)[2]), PSumList(Tail(s)))
\* s denotes exactly p, in canonical form.
PIs(nv, s, p) == PWellFormed(nv, s) /\ PRead(s) = p
=============================================================================
