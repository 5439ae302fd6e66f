--------------------------------- MODULE Res ---------------------------------
(* Resultants, subresultants and discriminants (C08), defined as determinants *)
(* of coefficient matrices.  Polynomials in variable 1 with coefficients in   *)
(* the other variables are compared at sample points of those; the points are *)
(* arbitrary numbers, so that no formula but the right one passes them all.   *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly
Begin(e) == [nv |-> e.nv]
Throws(st, e) == FALSE
\* ---- determinants ----------------------------------------------------------
RECURSIVE Det(_)
Det(m) ==
  IF m = <<>> THEN "1"
  ELSE LET k == Len(m)
           piv == {i \in 1..k : m[i][1] # "0"} IN
       IF piv = {} THEN "0"
       ELSE LET i == CHOOSE i \in piv : \A j \in piv : i <= j
                row(j) == IF j < i THEN m[j] ELSE m[j + 1]        \* the other rows in order
                elim(r) == LET f == QDiv(r[1], m[i][1]) IN [c \in 1..(k - 1) |-> QSub(r[c + 1], QMul(f, m[i][c + 1]))]
                d == QMul(m[i][1], Det([j \in 1..(k - 1) |-> elim(row(j))]))
            IN  IF i % 2 = 1 THEN d ELSE QNeg(d)
\* ---- subresultants of coefficient lists p, q (low first) of degrees n, m ----
Deg(p) == Len(p) - 1
Co(p, i) == IF i >= 0 /\ i <= Deg(p) THEN p[i + 1] ELSE "0"
\* Row of x^s * p in columns of powers hi..lo+1 and the coefficient of x^k
Row(p, s, hi, lo, k) == [c \in 1..(hi - lo + 1) |-> IF c = hi - lo + 1 THEN Co(p, k - s) ELSE Co(p, hi - c + 1 - s)]
SubCo(p, q, j, k) ==
  LET n == Deg(p)  m == Deg(q)  hi == n + m - j - 1 IN
  Det([r \in 1..(n + m - 2 * j) |-> IF r <= m - j THEN Row(p, m - j - r, hi, j, k) ELSE Row(q, n - j - (r - (m - j)), hi, j, k)])
SubRes(p, q, j) == [k \in 1..(j + 1) |-> SubCo(p, q, j, k - 1)]
Resultant(p, q) == SubCo(p, q, 0, 0)
Deriv(p) == [i \in 1..(Len(p) - 1) |-> QMul(QOfInt(i), p[i + 1])]
\* Res(p, p') / lc(p): expand the first column by hand, so that it also is right where lc vanishes
Disc(p) == LET n == Deg(p)  q == Deriv(p)
               full == [r \in 1..(2 * n - 1) |-> IF r <= n - 1 THEN Row(p, n - 1 - r, 2 * n - 2, 0, 0) ELSE Row(q, 2 * n - 1 - r, 2 * n - 2, 0, 0)]
               one == [r \in 1..(2 * n - 1) |-> IF r = 1 THEN [full[1] EXCEPT ![1] = "1"] ELSE IF r = n THEN [full[n] EXCEPT ![1] = QOfInt(n)] ELSE full[r]]
           IN  IF n = 1 THEN "1" ELSE Det(one)
\* ---- symbolic inputs at points ---------------------------------------------
At(nv, p, a) == [i \in 1..Len(p) |-> PEval(nv, PRead(p[i]), a)]
Zero(nv, p) == \A i \in DOMAIN p : PIsZero(PRead(p[i]))
\* v_i = f * d_i for one constant f # 0
Prop(v, d) == (\A i \in DOMAIN d : d[i] = "0" <=> v[i] = "0") /\ (\A i, j \in DOMAIN d : QMul(v[i], d[j]) = QMul(v[j], d[i]))
UpToSign(v, d) == (\A i \in DOMAIN d : v[i] = d[i]) \/ (\A i \in DOMAIN d : v[i] = QNeg(d[i]))
\* all coefficients at all points in one list
RECURSIVE Cat(_, _)
Cat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Cat(l, i + 1)
Pad(p, n) == [i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE "0"]
Longer(p, q) == Len(p) >= Len(q)
Pre(st, c) == IF c.op = "disc" THEN Len(c.p) >= 2 ELSE c.p # <<>> /\ c.q # <<>>
\* the determinants that do not vanish identically, ascending
Chain(st, c) ==
  LET p == IF Longer(c.p, c.q) THEN c.p ELSE c.q
      q == IF Longer(c.p, c.q) THEN c.q ELSE c.p
      vals(j) == Cat([i \in DOMAIN c.pts |-> SubRes(At(st.nv, p, c.pts[i]), At(st.nv, q, c.pts[i]), j)], 1)
      RECURSIVE Go(_)
      Go(j) == IF j >= Deg(q) THEN <<>> ELSE (LET v == vals(j) IN IF \A i \in DOMAIN v : v[i] = "0" THEN <<>> ELSE <<[d |-> j, v |-> v]>>) \o Go(j + 1)
  IN  [p |-> p, q |-> q, s |-> Go(0)]
Ok(st, e) == LET r == e.r IN
  CASE e.op = "res" ->
         LET d == [i \in DOMAIN e.pts |-> Resultant(At(st.nv, e.p, e.pts[i]), At(st.nv, e.q, e.pts[i]))]
             v == [i \in DOMAIN e.pts |-> IF r = <<>> THEN "0" ELSE PEval(st.nv, PRead(r[1]), e.pts[i])]
         IN  /\ Len(r) <= 1
             /\ IF Len(e.p) > 1 /\ Len(e.q) > 1 THEN UpToSign(v, d) ELSE r # <<>>
    [] e.op = "disc" ->
         LET d == [i \in DOMAIN e.pts |-> Disc(At(st.nv, e.p, e.pts[i]))]
             v == [i \in DOMAIN e.pts |-> IF r = <<>> THEN "0" ELSE PEval(st.nv, PRead(r[1]), e.pts[i])]
         IN  Len(r) <= 1 /\ Prop(v, d)
    [] e.op \in {"sub", "psc"} ->
         LET ch == Chain(st, e)  n == Len(ch.s) IN
         /\ Len(r) = n + 2
         /\ \A k \in 1..n :
              LET at == [i \in DOMAIN e.pts |-> At(st.nv, r[k], e.pts[i])]
                  dg == ch.s[k].d + 1
              IN  IF e.op = "sub"
                  THEN Len(r[k]) <= dg /\ UpToSign(Cat([i \in DOMAIN at |-> Pad(at[i], dg)], 1), ch.s[k].v)
                  ELSE LET top == CHOOSE t \in 1..dg : (\E i \in DOMAIN at : ch.s[k].v[(i - 1) * dg + t] # "0") /\ \A u \in (t + 1)..dg : \A i \in DOMAIN at : ch.s[k].v[(i - 1) * dg + u] = "0"
                       IN  Len(r[k]) = 1 /\ UpToSign([i \in DOMAIN at |-> at[i][1]], [i \in DOMAIN at |-> ch.s[k].v[(i - 1) * dg + top]])
         /\ \A k \in {1, 2} : LET x == IF k = 1 THEN ch.q ELSE ch.p IN
              IF e.op = "sub" THEN At(st.nv, r[n + k], e.pts[1]) = At(st.nv, x, e.pts[1]) ELSE Len(r[n + k]) = 1 /\ PRead(r[n + k][1]) = PRead(x[Len(x)])
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == st
=============================================================================
