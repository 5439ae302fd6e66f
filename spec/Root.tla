-------------------------------- MODULE Root ---------------------------------
(* Root counts, root bounds, root elimination (C09) and univariate and trivial *)
(* multivariate factorisation (C10).  All operations are functions of their    *)
(* arguments.                                                                  *)
EXTENDS UniLib, Poly
Begin(e) == [ring |-> e.ring]
Throws(st, e) == FALSE
NZ(p) == p # <<>>
Bounded(v) == v[2] # "I" /\ v[4] # "I"
Pre(st, c) ==
  CASE c.op = "count" -> NZ(c.p) /\ UEval(c.p, c.iv[1]) # "0" /\ UEval(c.p, c.iv[3]) # "0"
    [] c.op \in {"desc", "bounds", "zero", "fact"} -> NZ(c.p)
    [] c.op = "elim" -> NZ(c.p) /\ UEval(c.p, c.c) = "0"
    [] c.op = "sff" -> Len(c.p) > 1
    [] OTHER -> TRUE
RECURSIVE Prod(_, _)
Prod(l, i) == IF i > Len(l) THEN <<"1">> ELSE UMul(UPow(l[i][1], l[i][2]), Prod(l, i + 1))
Trim(p) == p = UTrim(p)
\* non-constant factors are square-free and pairwise without common factor
Separate(l) == LET N == {i \in 1..Len(l) : Len(l[i][1]) > 1} IN
  /\ \A i \in N : l[i][2] >= 1 /\ UIsSqFree(l[i][1])
  /\ \A i \in N, j \in N : i < j => Len(UGcd(l[i][1], l[j][1])) = 1
\* Rational roots are searched for only if the outer integer coefficients fit 31 bits.
RECURSIVE LcmDen(_, _)
LcmDen(p, i) == IF i > Len(p) THEN "1" ELSE ZLcm(QDen(p[i]), LcmDen(p, i + 1))
RECURSIVE GcdAll(_, _)
GcdAll(p, i) == IF i > Len(p) THEN "0" ELSE ZGcd(p[i], GcdAll(p, i + 1))
Sized(p) == LET z == UScale(LcmDen(p, 1), UStrip(p, "0"))  g == GcdAll(z, 1) IN
  \A c \in {z[1], z[Len(z)]} : QLe(QAbs(QDiv(c, g)), "2147483647")
\* Multivariate factorisation without a computer algebra backend is the trivial one; the wire
\* polynomials are compared as functions from monomials to coefficients.
RECURSIVE MProd(_, _, _)
MProd(nv, l, i) == IF i > Len(l) THEN PConst(nv, "1") ELSE PMul(PPow(nv, PRead(l[i][1]), l[i][2]), MProd(nv, l, i + 1))
MFactOk(e) ==
  LET m == PRead(e.m)  r == e.r IN
  IF PIsConst(m) /\ ~e.cons THEN r.f = <<>> /\ r.i = <<>>
  ELSE /\ MProd(e.nv, r.f, 1) = m /\ \A i, j \in 1..Len(r.f) : i # j => PRead(r.f[i][1]) # PRead(r.f[j][1])
       /\ {PRead(r.i[k]) : k \in 1..Len(r.i)} = {PRead(r.f[k][1]) : k \in 1..Len(r.f)}
       \* the square-free part divides the polynomial and has its roots: both checked on small values
       /\ \A a \in [1..e.nv -> {"-1", "0", "1", "2"}] : PEval(e.nv, m, a) = "0" <=> PEval(e.nv, PRead(r.s), a) = "0"
Ok(st, e) ==
  IF e.op = "mfact" THEN MFactOk(e) ELSE
  IF e.op = "signs" THEN LET l == [i \in 1..Len(e.l) |-> QSgn(e.l[i])] IN e.r.f = Variations(l) /\ e.r.s = Variations(l) ELSE
  LET r == e.r  p == e.p IN
  CASE e.op = "count" -> r.n = CountOpen(p, e.iv[1], e.iv[3]) /\ r.seqn = r.n
    [] e.op = "desc" -> \* Descartes' rule on the open interval, or at a point
         IF e.iv[1] = e.iv[3] THEN r >= UMult(p, e.iv[1])
         ELSE LET n == CountMult(p, e.iv[1], e.iv[3]) IN r >= n /\ (r - n) % 2 = 0
    [] e.op = "bounds" ->
         LET B(x) == /\ QSgn(x) >= 0
                     /\ CountOpen(p, x, "+oo") = 0 /\ CountOpen(p, "-oo", QNeg(x)) = 0 IN
         /\ B(r.cauchy) /\ B(r.hirst) /\ B(r.lagr)
         /\ QSgn(r.lpu) >= 0 /\ CountOpen(p, r.lpu, "+oo") = 0
         /\ QSgn(r.lpl) >= 0 /\ (QSgn(r.lpl) > 0 => CountOpen(p, "0", r.lpl) = 0)
         /\ QSgn(r.lnu) <= 0 /\ (QSgn(r.lnu) < 0 => CountOpen(p, r.lnu, "0") = 0)
         \* no positive (negative) root is denied
         /\ r.lpu = "0" => CountOpen(p, "0", "+oo") = 0
         /\ r.lpl = "0" => (CountOpen(p, "0", "+oo") = 0)
         /\ r.lnu = "0" => (CountOpen(p, "-oo", "0") = 0)
    [] e.op = "sturm" -> \* each element is a positive multiple of what the sequence asks for
         LET n == Len(r) IN
         /\ n >= 2 /\ \A i \in 1..n : Trim(r[i])
         /\ r[1] = p /\ r[2] = (IF e.two THEN e.q ELSE UDeriv(p))
         /\ IF p = <<>> \/ r[2] = <<>> THEN n = 2
            ELSE /\ URem(r[n - 1], r[n]) = <<>>
                 /\ \A i \in 3..n : LET x == UNeg(URem(r[i - 2], r[i - 1])) IN
                      x # <<>> /\ r[i] # <<>> /\ UAssoc(x, r[i]) /\ QSgn(ULc(x)) = QSgn(ULc(r[i]))
    [] e.op = "zero" -> r = UStrip(p, "0")
    [] e.op = "elim" -> r = UStrip(p, e.c)
    \* ---- factorisation
    [] e.op = "sqf" -> IF Len(p) <= 1 THEN Len(r.q) <= 1 /\ (p = <<>> <=> r.q = <<>>) ELSE Trim(r.q) /\ UAssoc(r.q, USqFree(p))
    [] e.op = "sff" -> /\ \A i \in 1..Len(r) : Trim(r[i][1]) /\ r[i][1] # <<>> /\ r[i][2] >= 1
                       /\ \A i, j \in 1..Len(r) : i # j => r[i][2] # r[j][2]
                       /\ Separate(r) /\ UAssoc(Prod(r, 1), p)
    [] e.op = "fact" -> /\ \A i \in 1..Len(r) : Trim(r[i][1]) /\ r[i][1] # <<>> /\ r[i][2] >= 1
                        /\ Separate(r) /\ Prod(r, 1) = p
                        /\ Cardinality({i \in 1..Len(r) : Len(r[i][1]) = 1}) <= 1
                        \* rational roots (known to the generator) are split off as linear factors
                        /\ Sized(p) => \A i \in 1..Len(e.roots) : UEval(p, e.roots[i]) = "0" =>
                             \E j \in 1..Len(r) : Len(r[j][1]) = 2 /\ UEval(r[j][1], e.roots[i]) = "0" /\ r[j][2] = UMult(p, e.roots[i])
    [] OTHER -> FALSE
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == st
=============================================================================
