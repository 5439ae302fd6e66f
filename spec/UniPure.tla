------------------------------- MODULE UniPure ------------------------------
(* Univariate polynomials over the rationals as coefficient lists, lowest     *)
(* degree first, without leading zeros; exact real root counting.  The text of *)
(* UniLib, without the fast implementations of java/UniLib.java.              *)
EXTENDS Integers, Sequences, FiniteSets, Q
RECURSIVE UTrim(_)
UTrim(p) == IF p = <<>> THEN p ELSE IF p[Len(p)] = "0" THEN UTrim(SubSeq(p, 1, Len(p) - 1)) ELSE p
UCo(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE "0"
IM(a, b) == IF a > b THEN a ELSE b
UDeg(p) == IF p = <<>> THEN 0 ELSE Len(p) - 1
ULc(p) == p[Len(p)]
UZero == <<>>
UConst(c) == IF c = "0" THEN <<>> ELSE <<c>>
UAdd(p, q) == UTrim([i \in 1..IM(Len(p), Len(q)) |-> QAdd(UCo(p, i), UCo(q, i))])
UScale(c, p) == IF c = "0" THEN <<>> ELSE [i \in 1..Len(p) |-> QMul(c, p[i])]
UNeg(p) == UScale("-1", p)
USub(p, q) == UAdd(p, UNeg(q))
UShift(p, n) == IF p = <<>> THEN p ELSE [i \in 1..n |-> "0"] \o p
RECURSIVE UMulFrom(_, _, _)
UMulFrom(p, q, i) == IF i > Len(p) THEN <<>> ELSE UAdd(UShift(UScale(p[i], q), i - 1), UMulFrom(p, q, i + 1))
UMul(p, q) == UMulFrom(p, q, 1)
RECURSIVE UPow(_, _)
UPow(p, n) == IF n = 0 THEN <<"1">> ELSE UMul(p, UPow(p, n - 1))
RECURSIVE UDivFrom(_, _, _)
UDivFrom(r, b, q) == IF r = <<>> \/ Len(r) < Len(b) THEN <<q, r>>
                     ELSE LET t == UShift(<<QDiv(ULc(r), ULc(b))>>, Len(r) - Len(b))
                          IN  UDivFrom(USub(r, UMul(t, b)), b, UAdd(q, t))
UDivRem(a, b) == UDivFrom(a, b, <<>>)
URem(a, b) == UDivRem(a, b)[2]
UQuo(a, b) == UDivRem(a, b)[1]
UMonic(p) == IF p = <<>> THEN p ELSE UScale(QDiv("1", ULc(p)), p)
RECURSIVE UGcd(_, _)
UGcd(a, b) == IF b = <<>> THEN UMonic(a) ELSE UGcd(b, URem(a, b))
UDeriv(p) == IF Len(p) <= 1 THEN <<>> ELSE [i \in 1..(Len(p) - 1) |-> QMul(QOfInt(i), p[i + 1])]
RECURSIVE UEvalFrom(_, _, _)
UEvalFrom(p, x, i) == IF i > Len(p) THEN "0" ELSE QAdd(p[i], QMul(x, UEvalFrom(p, x, i + 1)))
UEval(p, x) == UEvalFrom(p, x, 1)
UAssoc(p, q) == UMonic(p) = UMonic(q)          \* equal up to a non-zero constant
\* p with every factor (x - c) removed, and how often it occurs
RECURSIVE UStrip(_, _)
UStrip(p, c) == IF p # <<>> /\ UEval(p, c) = "0" THEN UStrip(UQuo(p, <<QNeg(c), "1">>), c) ELSE p
UMult(p, c) == Len(p) - Len(UStrip(p, c))
USqFree(p) == IF Len(p) <= 1 THEN p ELSE UQuo(p, UGcd(p, UDeriv(p)))
UIsSqFree(p) == Len(p) <= 1 \/ Len(UGcd(p, UDeriv(p))) = 1
\* ---- real roots ------------------------------------------------------------
RECURSIVE SturmFrom(_)
SturmFrom(s) == LET n == Len(s)  r == UNeg(URem(s[n - 1], s[n])) IN IF r = <<>> THEN s ELSE SturmFrom(Append(s, r))
Sturm(p) == IF Len(p) <= 1 THEN <<p>> ELSE SturmFrom(<<p, UDeriv(p)>>)
\* A place is a number or "-oo", "+oo".
SgnAt(p, x) == IF p = <<>> THEN 0
               ELSE IF x = "+oo" THEN QSgn(ULc(p))
               ELSE IF x = "-oo" THEN IF UDeg(p) % 2 = 0 THEN QSgn(ULc(p)) ELSE -QSgn(ULc(p))
               ELSE QSgn(UEval(p, x))
RECURSIVE VarFrom(_, _, _)
VarFrom(l, i, last) == IF i > Len(l) THEN 0
                       ELSE IF l[i] = 0 THEN VarFrom(l, i + 1, last)
                       ELSE (IF last # 0 /\ l[i] # last THEN 1 ELSE 0) + VarFrom(l, i + 1, l[i])
Variations(l) == VarFrom(l, 1, 0)
VarAt(s, x) == Variations([i \in 1..Len(s) |-> SgnAt(s[i], x)])
\* Number of distinct roots of p (not zero) strictly between two places that are no roots.
CountBetween(p, a, b) == LET s == Sturm(p) IN VarAt(s, a) - VarAt(s, b)
Clear(p, a) == IF a \in {"-oo", "+oo"} THEN p ELSE UStrip(p, a)
\* ... between any two places a < b, ends excluded.
CountOpen(p, a, b) == CountBetween(Clear(Clear(p, a), b), a, b)
RootAt(p, a) == a \notin {"-oo", "+oo"} /\ UEval(p, a) = "0"
CountReal(p) == CountOpen(p, "-oo", "+oo")
\* ... counted with multiplicity: a root of multiplicity m is one of p, p/sqfree(p), ... m times.
RECURSIVE CountMult(_, _, _)
CountMult(p, a, b) == IF Len(p) <= 1 THEN 0 ELSE CountOpen(p, a, b) + CountMult(UGcd(p, UDeriv(p)), a, b)
=============================================================================
