---------------------------------- MODULE MG ----------------------------------
(* Common divisors and factors of multivariate polynomials over the rationals  *)
(* (C36).  Divisors are determined up to numbers.                              *)
EXTENDS PGcd
Begin(e) == [nv |-> e.nv]
Throws(st, e) == FALSE
RECURSIVE MProd(_, _, _)
MProd(nv, l, i) == IF i > Len(l) THEN PConst(nv, "1") ELSE PMul(PPow(nv, PRead(l[i].p), l[i].e), MProd(nv, l, i + 1))
\* d divides each coefficient of p in x_v
DividesIn(d, p, v) == \A k \in 0..PDegIn(p, v) : PIsZero(PCoeffIn(p, v, k)) \/ PGDivides(d, PCoeffIn(p, v, k))
Coeffs(p, v) == {PCoeffIn(p, v, k) : k \in 0..PDegIn(p, v)} \ {PZero}
RECURSIVE UGcdAll(_, _, _, _)
UGcdAll(nv, cs, x, k) == IF cs = {} THEN <<>> ELSE LET c == CHOOSE c \in cs : TRUE IN UGcd(UTrim(Special(nv, c, x, Points[k])), UGcdAll(nv, cs \ {c}, x, k))
QGcd(a, b) == QDiv(ZGcd(QNum(a), QNum(b)), ZLcm(QDen(a), QDen(b)))
\* d is a greatest common divisor of the coefficients of p in x_v: none is left over
IsContent(nv, d, p, v) ==
  /\ DividesIn(d, p, v)
  /\ \A x \in 1..nv : \E k \in DOMAIN Points : LET cs == {PGQuo(c, d) : c \in Coeffs(p, v)} IN
       \/ \E c \in cs : x \notin PVars(c)
       \/ /\ \A c \in cs : Len(UTrim(Special(nv, c, x, Points[k]))) = PDegIn(c, x) + 1
          /\ Len(UGcdAll(nv, cs, x, k)) = 1
RECURSIVE DividesPow(_, _, _)
\* p divides some power of s
DividesPow(p, s, n) == IF PIsConst(p) THEN TRUE ELSE IF n = 0 THEN FALSE ELSE PGDivides(p, s) \/ DividesPow(p, PMul(s, s), n - 1)
Pre(st, c) ==
  CASE c.op \in {"gcd", "ugcd"} -> PRead(c.p) # PZero /\ PRead(c.q) # PZero
    [] c.op \in {"cont", "fact"} -> PRead(c.p) # PZero
    [] c.op = "term" -> c.s[2] # "0" /\ c.t[2] # "0"
    [] OTHER -> TRUE
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MonSum(_)
MonSum(m) == IF m = <<>> THEN 0 ELSE Head(m) + MonSum(Tail(m))
RECURSIVE SumOf(_)
SumOf(s) == IF s = {} THEN 0 ELSE LET m == CHOOSE m \in s : TRUE IN MonSum(m) + 1 + SumOf(s \ {m})
Ok(st, e) == LET r == e.r nv == st.nv IN
  CASE e.op = "gcd" -> LET p == PRead(e.p) q == PRead(e.q) IN
         /\ PWellFormed(nv, r.g) /\ PWellFormed(nv, r.l)
         /\ PGIsGcd(nv, PRead(r.g), p, q) /\ PGIsLcm(nv, PRead(r.l), p, q)
    [] e.op = "ugcd" -> PWellFormed(nv, r.g) /\ PGIsGcd(nv, PRead(r.g), PRead(e.p), PRead(e.q))
    [] e.op = "cont" -> LET n == PRead(r.n) IN
         /\ PGAssoc(PRead(e.p), n)
         /\ IsContent(nv, PRead(r.c), n, e.v)
         /\ PMul(PRead(r.c), PRead(r.p)) = n
    [] e.op = "fact" -> LET p == PRead(e.p) s == PRead(r.s) IN
         /\ (e.inc => MProd(nv, r.l, 1) = p) /\ (PIsConst(p) \/ PGAssoc(MProd(nv, r.l, 1), p))
         /\ ~e.inc => \A i \in DOMAIN r.l : ~PIsConst(PRead(r.l[i].p))
         /\ \A i \in DOMAIN r.i : PGDivides(PRead(r.i[i]), p)
         /\ PGDivides(s, p) /\ DividesPow(p, s, 4)
    [] e.op = "term" ->
         /\ r.tt[1] = [i \in 1..nv |-> Min2(e.s[1][i], e.t[1][i])] /\ r.tt[2] = QGcd(e.s[2], e.t[2])
    [] e.op = "repr" -> LET p == PRead(e.p) IN
         /\ PIs(nv, r.s, p) /\ r.sm
         /\ r.c = SumOf(DOMAIN p)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == st
===============================================================================
