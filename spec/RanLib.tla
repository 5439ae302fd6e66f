-------------------------------- MODULE RanLib ---------------------------------
(***************************************************************************)
(* Real algebraic numbers.  A number is a rational c, written              *)
(* [p |-> <<>>, a |-> c, b |-> c], or the only root of p in the open        *)
(* interval (a, b).                                                        *)
(***************************************************************************)
EXTENDS UniLib, Poly
I == INSTANCE IvlLib
Rat(c) == [p |-> <<>>, a |-> c, b |-> c]
Alg(p, a, b) == [p |-> p, a |-> a, b |-> b]
IsRat(X) == X.p = <<>>
\* Wire form: <<"n", c>> or <<"i", p, a, b, type, type>>.
Num(w) == IF w[1] = "n" THEN Rat(w[2]) ELSE Alg(w[2], w[3], w[4])
Valid(w) == w[1] = "n" \/ (/\ Len(w[2]) > 1 /\ w[2] = UTrim(w[2]) /\ QLt(w[3], w[4])
                           /\ w[5] = "S" /\ w[6] = "S" /\ CountOpen(w[2], w[3], w[4]) = 1)
Mid(X) == QDiv(QAdd(X.a, X.b), "2")
\* The side of c on which the root lies (c inside the interval).
SideOf(X, c) == LET s == SgnAt(X.p, c)  l == SgnAt(X.p, X.a)  u == SgnAt(X.p, X.b) IN
  IF s = 0 THEN 0 ELSE IF l * u = -1 THEN (IF s = l THEN 1 ELSE -1)
  ELSE IF CountOpen(X.p, X.a, c) = 1 THEN -1 ELSE 1
Split(X, c) == LET s == SideOf(X, c) IN
  IF s = 0 THEN Rat(c) ELSE IF s = 1 THEN [X EXCEPT !.a = c] ELSE [X EXCEPT !.b = c]
Half(X) == IF IsRat(X) THEN X ELSE Split(X, Mid(X))
\* Sign of X - c.
CmpC(X, c) == IF IsRat(X) THEN QCmp(X.a, c) ELSE IF QLe(c, X.a) THEN 1 ELSE IF QGe(c, X.b) THEN -1 ELSE SideOf(X, c)
Same(X, Y) ==
  IF IsRat(X) THEN CmpC(Y, X.a) = 0 ELSE IF IsRat(Y) THEN CmpC(X, Y.a) = 0
  ELSE LET lo == QMax(X.a, Y.a)  hi == QMin(X.b, Y.b) IN
       QLt(lo, hi) /\ LET g == UGcd(X.p, Y.p) IN Len(g) > 1 /\ CountOpen(g, lo, hi) = 1
RECURSIVE Apart(_, _)
Apart(X, Y) == IF QLe(X.b, Y.a) THEN -1 ELSE IF QLe(Y.b, X.a) THEN 1 ELSE Apart(Half(X), Half(Y))
Cmp(X, Y) == IF IsRat(X) THEN -CmpC(Y, X.a) ELSE IF IsRat(Y) THEN CmpC(X, Y.a)
             ELSE IF QLe(X.b, Y.a) THEN -1 ELSE IF QLe(Y.b, X.a) THEN 1
             ELSE IF Same(X, Y) THEN 0 ELSE Apart(X, Y)
RECURSIVE SgnFrom(_, _)
SgnFrom(s, X) == IF IsRat(X) THEN QSgn(UEval(s, X.a))
                 ELSE IF CountOpen(s, X.a, X.b) = 0 THEN QSgn(UEval(s, Mid(X))) ELSE SgnFrom(s, Half(X))
SgnPoly(s, X) == IF s = <<>> THEN 0 ELSE IF IsRat(X) THEN QSgn(UEval(s, X.a))
                 ELSE LET g == UGcd(X.p, s) IN IF Len(g) > 1 /\ CountOpen(g, X.a, X.b) = 1 THEN 0 ELSE SgnFrom(s, X)
RECURSIVE Floor(_)
Floor(X) == IF IsRat(X) THEN QFloor(X.a)
            ELSE LET f == QAdd(QFloor(X.a), "1") IN IF QGe(f, X.b) THEN QSub(f, "1") ELSE Floor(Split(X, f))
IsInt(X) == CmpC(X, Floor(X)) = 0
Ceil(X) == IF IsInt(X) THEN Floor(X) ELSE QAdd(Floor(X), "1")
Neg(X) == IF IsRat(X) THEN Rat(QNeg(X.a))
          ELSE Alg([i \in DOMAIN X.p |-> IF i % 2 = 1 THEN X.p[i] ELSE QNeg(X.p[i])], QNeg(X.b), QNeg(X.a))
Sgn(X) == CmpC(X, "0")
\* Membership in an interval given by its wire form.
InIvl(X, v) == LET n == I!Abs(v) IN
  /\ ~I!IsE(n)
  /\ n.lt = "I" \/ CmpC(X, n.l) > 0 \/ (n.lt = "W" /\ CmpC(X, n.l) = 0)
  /\ n.ut = "I" \/ CmpC(X, n.u) < 0 \/ (n.ut = "W" /\ CmpC(X, n.u) = 0)
B2I(b) == IF b THEN 1 ELSE 0
CountIn(p, v) == LET n == I!Abs(v) IN
  IF I!IsE(n) THEN 0
  ELSE IF n.lt = "W" /\ n.ut = "W" /\ n.l = n.u THEN B2I(UEval(p, n.l) = "0")
  ELSE CountOpen(p, IF n.lt = "I" THEN "-oo" ELSE n.l, IF n.ut = "I" THEN "+oo" ELSE n.u)
       + B2I(n.lt = "W" /\ UEval(p, n.l) = "0") + B2I(n.ut = "W" /\ UEval(p, n.u) = "0")
IsRootOf(p, X) == SgnPoly(p, X) = 0
\* The list of all roots of p in an interval.
RootList(p, v, l) == /\ Len(l) = CountIn(p, v)
                     /\ \A i \in DOMAIN l : IsRootOf(p, l[i]) /\ InIvl(l[i], v)
                     /\ \A i \in 1..(Len(l) - 1) : Cmp(l[i], l[i + 1]) < 0
RelHolds(r, s) == CASE r = "eq" -> s = 0 [] r = "ne" -> s # 0 [] r = "lt" -> s < 0 [] r = "le" -> s <= 0 [] r = "gt" -> s > 0 [] r = "ge" -> s >= 0
\* All real roots of a polynomial, in order.
RECURSIVE IsoIn(_, _, _)
IsoIn(p, a, b) == LET n == CountOpen(p, a, b)  m == QDiv(QAdd(a, b), "2") IN
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Alg(p, a, b)>>
  ELSE IsoIn(p, a, m) \o (IF UEval(p, m) = "0" THEN <<Rat(m)>> ELSE <<>>) \o IsoIn(p, m, b)
RECURSIVE SumAbs(_, _)
SumAbs(p, i) == IF i > Len(p) THEN "1" ELSE QAdd(QAbs(QDiv(p[i], p[Len(p)])), SumAbs(p, i + 1))
AllRoots(p) == IF Len(p) < 2 THEN <<>> ELSE LET s == SumAbs(p, 1) IN IsoIn(p, QNeg(s), s)
\* ---- values of polynomials -------------------------------------------------
\* Horner scheme for r(s(x)) modulo p.
RECURSIVE CompMod(_, _, _, _)
CompMod(r, s, p, i) == IF i > Len(r) THEN <<>> ELSE URem(UAdd(UConst(r[i]), UMul(s, CompMod(r, s, p, i + 1))), p)
\* W is s(X), X not rational.
IsValue(W, s, X) ==
  IF IsRat(W) THEN SgnPoly(USub(s, UConst(W.a)), X) = 0
  ELSE /\ SgnPoly(USub(s, UConst(W.a)), X) > 0 /\ SgnPoly(USub(s, UConst(W.b)), X) < 0
       /\ SgnPoly(CompMod(W.p, s, X.p, 1), X) = 0
\* Several irrational arguments: enclosures narrower than any gap the bounded inputs allow.
Eps == QPow("1/2", 150)
RECURSIVE Tiny(_)
Tiny(X) == IF IsRat(X) \/ QLt(QSub(X.b, X.a), Eps) THEN X ELSE Tiny(Half(X))
Box(X) == LET t == Tiny(X) IN IF IsRat(t) THEN I!Pt(t.a) ELSE I!Mk(t.a, "W", t.b, "W")
RECURSIVE MonoIvl(_, _, _)
MonoIvl(e, B, i) == IF i > Len(e) THEN I!Pt("1") ELSE IF e[i] = 0 THEN MonoIvl(e, B, i + 1) ELSE I!IMul(I!IPow(B[i], e[i]), MonoIvl(e, B, i + 1))
RECURSIVE TermsIvl(_, _, _)
TermsIvl(l, B, i) == IF i > Len(l) THEN I!Pt("0") ELSE I!IAdd(I!IScale(l[i][2], MonoIvl(l[i][1], B, 1)), TermsIvl(l, B, i + 1))
\* The polynomial with the rational arguments put in; the other variables.
RECURSIVE PutRats(_, _, _, _)
PutRats(nv, p, A, i) == IF i > nv THEN p ELSE PutRats(nv, IF i \in DOMAIN A /\ IsRat(A[i]) THEN PEvalVar(nv, p, i, A[i].a) ELSE p, A, i + 1)
UniOf(nv, p, v) == UTrim([k \in 1..(PDegIn(p, v) + 1) |-> PConstVal(PCoeffIn(p, v, k - 1))])
EvalBox(nv, wire, A) == TermsIvl(wire, [i \in 1..nv |-> IF i \in DOMAIN A THEN Box(A[i]) ELSE I!Pt("0")], 1)
ValueOk(nv, wire, A, W) ==
  LET q == PutRats(nv, PSumList(wire), A, 1)  vs == PVars(q) IN
  IF vs = {} THEN CmpC(W, IF PIsZero(q) THEN "0" ELSE PConstVal(q)) = 0
  ELSE IF Cardinality(vs) = 1 THEN LET v == CHOOSE v \in vs : TRUE IN IsValue(W, UniOf(nv, q, v), A[v])
  ELSE ~I!IsE(I!Cap(EvalBox(nv, wire, A), Box(W)))
SignOf(nv, wire, A) ==
  LET q == PutRats(nv, PSumList(wire), A, 1)  vs == PVars(q) IN
  IF vs = {} THEN (IF PIsZero(q) THEN 0 ELSE QSgn(PConstVal(q)))
  ELSE IF Cardinality(vs) = 1 THEN LET v == CHOOSE v \in vs : TRUE IN SgnPoly(UniOf(nv, q, v), A[v])
  ELSE LET B == EvalBox(nv, wire, A) IN IF I!In("0", B) THEN 0 ELSE QSgn(B.l)
=============================================================================
