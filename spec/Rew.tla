--------------------------------- MODULE Rew ---------------------------------
(* Rewritings of polynomials (C31): Horner schemes, sums of squares,          *)
(* definiteness, Chebyshev polynomials, linear diophantine equations.         *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, UniLib
Begin(e) == [nv |-> e.nv]
Throws(st, e) == FALSE
\* ---- Horner: v^e * dep + indep ---------------------------------------------
RECURSIVE Horner(_, _)
Horner(nv, h) ==
  IF h.v = 0 THEN PConst(nv, h.ic)
  ELSE PAdd(PMul(PPow(nv, PVar(nv, h.v), h.e), IF h.hasd THEN Horner(nv, h.d) ELSE PConst(nv, h.dc)),
            IF h.hasi THEN Horner(nv, h.i) ELSE PConst(nv, h.ic))
RECURSIVE HornerFine(_)
HornerFine(h) == h.v = 0 \/ (h.e >= 1 /\ (h.hasd => HornerFine(h.d)) /\ (h.hasi => HornerFine(h.i)))
\* ---- sums of squares -------------------------------------------------------
RECURSIVE Squares(_, _, _)
Squares(nv, l, i) == IF i > Len(l) THEN PZero ELSE PAdd(PScale(l[i].c, PPow(nv, PRead(l[i].p), 2)), Squares(nv, l, i + 1))
\* ---- quadratic polynomials: completing squares decides everything ----------
Sq(nv, p, i) == Coef(p, [MOne(nv) EXCEPT ![i] = 2])
\* infimum of p in variables i..nv: "none" (unbounded below) or a number
RECURSIVE Inf(_, _)
Inf(nv, p) ==
  IF PIsConst(p) THEN <<"fin", PConstVal(p)>>
  ELSE IF \E i \in PVars(p) : QLe(Sq(nv, p, i), "0") THEN <<"none", "0">>
  ELSE LET i == CHOOSE i \in PVars(p) : TRUE
           a == Sq(nv, p, i)
           b == PCoeffIn(p, i, 1)                        \* p = a x^2 + b x + c
           c == PCoeffIn(p, i, 0)
       IN  Inf(nv, PSub(c, PScale(QDiv("1", QMul("4", a)), PMul(b, b))))
\* A variable without square term that remains linear makes the polynomial unbounded.
Even(m) == \A i \in DOMAIN m : m[i] % 2 = 0
TermsPos(p) == \A m \in DOMAIN p : Even(m) /\ QGt(p[m], "0")
\* Does "p > 0 (strict) / p >= 0 everywhere" hold?  "?" if the specification cannot tell.
Pos(nv, p, strict, pts) ==
  IF PDeg(p) <= 2 THEN LET x == Inf(nv, p) IN (IF x[1] = "fin" /\ (IF strict THEN QGt(x[2], "0") ELSE QGe(x[2], "0")) THEN "yes" ELSE "no")
  ELSE IF TermsPos(p) /\ (strict => PConstPart(nv, p) # "0") THEN "yes"
  ELSE IF \E k \in DOMAIN pts : LET q == PEval(nv, p, pts[k]) IN IF strict THEN QLe(q, "0") ELSE QLt(q, "0") THEN "no"
  ELSE "?"
Verdict(nv, p, d, pts) == CASE d = "positive" -> Pos(nv, p, TRUE, pts) [] d = "semipositive" -> Pos(nv, p, FALSE, pts)
                       [] d = "negative" -> Pos(nv, PNeg(p), TRUE, pts) [] d = "seminegative" -> Pos(nv, PNeg(p), FALSE, pts) [] d = "none" -> "yes"
\* ---- Chebyshev: T_n by its coefficients 2^(n-1) x^n - ... ------------------
RECURSIVE ChebFrom(_, _, _)      \* p and q are two consecutive polynomials
ChebFrom(p, q, n) == IF n = 0 THEN p ELSE LET r == USub(UMul(<<"0", "2">>, q), p) IN ChebFrom(q, r, n - 1)
Cheb(n) == ChebFrom(<<"1">>, <<"0", "1">>, n)
\* ---- linear equations over the integers ------------------------------------
RECURSIVE SumProd(_, _, _)
SumProd(a, b, i) == IF i > Len(a) THEN "0" ELSE QAdd(QMul(a[i], b[i]), SumProd(a, b, i + 1))
RECURSIVE GcdAll(_, _)
GcdAll(a, i) == IF i > Len(a) THEN "0" ELSE ZGcd(a[i], GcdAll(a, i + 1))
Pre(st, c) == CASE c.op = "dio" -> c.c = "0" \/ (c.a # <<>> /\ ZDivides(GcdAll(c.a, 1), c.c))
                [] OTHER -> TRUE
Ok(st, e) == LET r == e.r IN
  CASE e.op = "horner" -> HornerFine(r) /\ Horner(st.nv, r) = PRead(e.p)
    [] e.op = "sos" -> r.l # <<>> => (\A i \in DOMAIN r.l : QGe(r.l[i].c, "0")) /\ Squares(st.nv, r.l, 1) = PRead(e.p)
    [] e.op = "def" -> /\ Verdict(st.nv, PRead(e.p), r.full, e.pts) # "no"
                       /\ Verdict(st.nv, PRead(e.p), r.quick, e.pts) # "no"
                       /\ \A k \in DOMAIN r.terms : Verdict(st.nv, PRead(<<r.terms[k].t>>), r.terms[k].d, e.pts) # "no"
    [] e.op = "cheb" -> r.c = Cheb(e.n)
    [] e.op = "xgcd" -> r.g = ZGcd(e.a, e.b) /\ QAdd(QMul(e.a, r.s), QMul(e.b, r.t)) = r.g
    [] e.op = "dio" -> Len(r.x) = Len(r.a) /\ QAdd(SumProd(r.a, r.x, 1), e.c) = "0" /\ \A i \in DOMAIN r.x : QIsInt(r.x[i])
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == st
=============================================================================
