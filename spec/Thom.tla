--------------------------------- MODULE Thom ---------------------------------
(***************************************************************************)
(* Tarski queries, sign determination and Thom encodings (C38).  The zero  *)
(* set of a session is given by a polynomial z in the first variable and,  *)
(* for every further variable, a list of polynomials g: its points are a   *)
(* real root X of z together with the values g(X).  The generators handed  *)
(* to the library are the obvious ones after adding multiples of some to   *)
(* others, and after multiplying in factors without real zeros.            *)
(* A number that is encoded is the value g(X).                             *)
(***************************************************************************)
EXTENDS RanLib
SqFree(p) == IF Len(p) < 2 THEN p ELSE UQuo(p, UGcd(p, UDeriv(p)))
Roots(p) == AllRoots(SqFree(p))
\* ---- polynomials in several variables ---------------------------------------
\* p with every variable but the first replaced by a polynomial in the first.
RECURSIVE PowAll(_, _, _)
PowAll(m, gs, i) == IF i > Len(gs) THEN <<"1">> ELSE UMul(UPow(gs[i], m[i + 1]), PowAll(m, gs, i + 1))
RECURSIVE AtFrom(_, _, _)
AtFrom(p, D, gs) == IF D = {} THEN <<>>
  ELSE LET m == CHOOSE x \in D : TRUE
       IN  UAdd(UScale(p[m], UShift(PowAll(m, gs, 1), m[1])), AtFrom(p, D \ {m}, gs))
At(p, gs) == AtFrom(p, DOMAIN p, gs)
SgnPt(p, pt) == SgnPoly(At(p, pt[2]), pt[1])
\* A univariate polynomial in the first variable.
Uni(nv, u) == [m \in {[MOne(nv) EXCEPT ![1] = i - 1] : i \in {j \in DOMAIN u : u[j] # "0"}} |-> u[m[1] + 1]]
NoZero(nv, i) == PAdd(PPow(nv, PVar(nv, i), 2), PConst(nv, "1"))
\* The product of v - g over the list gs, v being variable i.
RECURSIVE Fan(_, _, _)
Fan(nv, i, gs) == IF gs = <<>> THEN PConst(nv, "1") ELSE PMul(PSub(PVar(nv, i), Uni(nv, Head(gs))), Fan(nv, i, Tail(gs)))
Times(nv, i, p, b) == IF b THEN PMul(p, NoZero(nv, i)) ELSE p
RECURSIVE Mixed(_, _)
Mixed(ps, ms) == IF ms = <<>> THEN ps
  ELSE LET m == Head(ms) IN Mixed([ps EXCEPT ![m[1]] = PAdd(ps[m[1]], PMul(PRead(m[3]), ps[m[2]]))], Tail(ms))
Gens(e) == Mixed([i \in 1..e.nv |-> IF i = 1 THEN Uni(e.nv, e.z) ELSE Times(e.nv, i, Fan(e.nv, i, e.gs[i - 1]), e.cx[i - 1])], e.mix)
\* ---- points -------------------------------------------------------------------
First(gs, k, X) == \A j \in 1..(k - 1) : SgnPoly(USub(gs[j], gs[k]), X) # 0
Choices(gs, X) == IF gs = <<>> THEN {<<>>} ELSE
  {k \in [1..Len(gs) -> 1..4] : \A i \in 1..Len(gs) : k[i] <= Len(gs[i]) /\ First(gs[i], k[i], X)}
Points(e) == LET R == Roots(e.z) IN
  UNION {{<<R[x], [i \in 1..Len(e.gs) |-> e.gs[i][k[i]]]>> : k \in Choices(e.gs, R[x])} : x \in 1..Len(R)}
Query(P, p) == Cardinality({x \in P : SgnPt(p, x) = 1}) - Cardinality({x \in P : SgnPt(p, x) = -1})
\* Signs of the polynomials of a list at a point, newest first.
Conds(P, ps) == {[i \in 1..Len(ps) |-> SgnPt(ps[i], x)] : x \in P}
SameSet(l, S) == Len(l) = Cardinality(S) /\ {l[i] : i \in 1..Len(l)} = S
\* ---- encoded numbers ----------------------------------------------------------
XX == <<"0", "1">>
Base(X) == [b |-> 0, X |-> X, g |-> XX, v |-> {1}]
CmpN(A, B) == IF A.b = 0 THEN Cmp(A.X, B.X) ELSE SgnPoly(USub(A.g, B.g), A.X)
CmpQ(A, c) == SgnPoly(USub(A.g, UConst(c)), A.X)
Inside(A, v) == LET n == I!Abs(v) IN
  /\ ~I!IsE(n)
  /\ n.lt = "I" \/ CmpQ(A, n.l) > 0 \/ (n.lt = "W" /\ CmpQ(A, n.l) = 0)
  /\ n.ut = "I" \/ CmpQ(A, n.u) < 0 \/ (n.ut = "W" /\ CmpQ(A, n.u) = 0)
RECURSIVE Insert(_, _)
Insert(A, l) == IF l = <<>> \/ CmpN(A, Head(l)) < 0 THEN <<A>> \o l ELSE <<Head(l)>> \o Insert(A, Tail(l))
RECURSIVE Sorted(_)
Sorted(l) == IF l = <<>> THEN l ELSE Insert(Head(l), Sorted(Tail(l)))
Within(l, v) == SelectSeq(l, LAMBDA A : Inside(A, v))
RootsIn(p, v) == LET R == Roots(p) IN Within([i \in 1..Len(R) |-> Base(R[i])], v)
\* The polynomial in the first variable whose sign at X is that of p at the number (for p in two variables).
OnNum(p, A) == At(p, IF A.b = 0 THEN <<>> ELSE <<A.g>>)
SgnNum(p, A) == SgnPoly(At(p, <<A.g>>), A.X)
RECURSIVE Derivs(_, _, _)
Derivs(p, v, n) == IF n = 0 THEN <<p>> ELSE <<p>> \o Derivs(PDeriv(p, v), v, n - 1)
\* The signs are those of the last derivatives of p, the polynomial vanishes.
Fits(w, A) == LET v == IF A.b = 0 THEN 1 ELSE 2
                  p == PRead(w.p)
                  n == PDegIn(p, v)
                  D == Derivs(p, v, n)
                  k == Len(w.s)
              IN  n >= 1 /\ k <= n /\ SgnNum(p, A) = 0 /\ \A m \in 1..k : SgnNum(D[n - k + m + 1], A) = w.s[m]
\* w encodes A, the other roots of its polynomial being the rest of R.
Encodes(w, A, R) == Fits(w, A) /\ \A i \in 1..Len(R) : CmpN(R[i], A) # 0 => ~Fits(w, R[i])
AsUni(p) == [i \in 1..(PDegIn(p, 1) + 1) |-> Coef(p, [MOne(2) EXCEPT ![1] = i - 1])]
BaseRoots(p) == LET R == Roots(AsUni(p)) IN [i \in 1..Len(R) |-> Base(R[i])]
\* Roots of a polynomial without the first variable know nothing about the point they are over.
Values(gs, X, b) == LET v == IF \A i \in 1..Len(gs) : Len(gs[i]) <= 1 THEN {2} ELSE {1, 2}
                    IN  Sorted([i \in 1..Len(gs) |-> [b |-> b, X |-> X, g |-> gs[i], v |-> v]])
RECURSIVE Distinct(_)
Distinct(l) == IF Len(l) < 2 THEN l ELSE IF CmpN(l[1], l[2]) = 0 THEN Distinct(Tail(l)) ELSE <<l[1]>> \o Distinct(Tail(l))
LiftAll(st, e) == LET i == (e.i % Len(st.enc)) + 1 IN Distinct(Values(e.gs, st.enc[i].X, i))
RECURSIVE Comp(_, _, _)
Comp(p, q, i) == IF i > Len(p) THEN <<>> ELSE UAdd(UConst(p[i]), UMul(q, Comp(p, q, i + 1)))
Moved(X, c) == IF IsRat(X) THEN Rat(QAdd(X.a, c)) ELSE Alg(Comp(X.p, <<QNeg(c), "1">>, 1), QAdd(X.a, c), QAdd(X.b, c))
\* ---- transitions --------------------------------------------------------------
Begin(e) == [nv |-> e.nv, ok |-> e.zs = <<>> \/ (Len(e.zs) = e.nv /\ LET G == Gens(e) IN \A i \in 1..e.nv : PRead(e.zs[i]) = G[i]),
             pts |-> IF e.zs = <<>> THEN {} ELSE Points(e), added |-> <<>>, enc |-> <<>>]
Throws(st, e) == FALSE
News(st, e) ==
  CASE e.op = "roots" -> RootsIn(AsUni(PRead(e.p)), e.iv)
    [] e.op = "lift" -> Within(LiftAll(st, e), e.iv)
    [] e.op = "plus" -> LET A == st.enc[(e.i % Len(st.enc)) + 1] IN <<Base(Moved(A.X, e.c))>>
Num1(st, i) == st.enc[(i % Len(st.enc)) + 1]
Same1(st, e) == Num1(st, e.i).b = Num1(st, e.j).b
Can(st, e) ==
  CASE e.op \in {"taq", "size", "signs", "add", "roots"} -> TRUE
    [] OTHER -> st.enc # <<>> /\
       CASE e.op \in {"lift", "plus"} -> Num1(st, e.i).b = 0
         [] e.op = "cmp" -> Same1(st, e)
         [] e.op = "mid" -> Same1(st, e) /\ Num1(st, e.i).b = 0 /\ CmpN(Num1(st, e.i), Num1(st, e.j)) < 0
         [] e.op = "midq" -> CmpQ(Num1(st, e.i), e.c) # 0
         [] e.op = "sgn" -> PVars(PRead(e.p)) \subseteq Num1(st, e.i).v
         [] OTHER -> TRUE
Skipped(e) == "skip" \in DOMAIN e
Listed(w, N, R) == Len(w) = Len(N) /\ \A i \in 1..Len(w) : Encodes(w[i], N[i], R)
Right(st, e) ==
  CASE e.op = "taq" -> e.r = Query(st.pts, PRead(e.p))
    [] e.op = "size" -> e.r = Cardinality(st.pts)
    [] e.op \in {"signs", "add"} -> SameSet(e.r, Conds(st.pts, <<PRead(e.p)>> \o st.added))
    [] e.op = "roots" -> Listed(e.r, News(st, e), BaseRoots(PRead(e.p)))
    [] e.op = "lift" -> /\ PRead(e.p) = PScale(e.c, Times(2, 2, Fan(2, 2, e.gs), e.cx))
                        /\ Listed(e.r, News(st, e), LiftAll(st, e))
    [] e.op = "plus" -> Len(e.r) = 1 /\ Encodes(e.r[1], News(st, e)[1], BaseRoots(PRead(e.r[1].p)))
    [] e.op = "cmp" -> e.r = CmpN(Num1(st, e.i), Num1(st, e.j))
    [] e.op = "cmpq" -> e.r = CmpQ(Num1(st, e.i), e.c)
    [] e.op = "mid" -> LET R == BaseRoots(PRead(e.r.p))  S == {i \in 1..Len(R) : Fits(e.r, R[i])}
                       IN  Cardinality(S) = 1 /\ \A i \in S : CmpN(Num1(st, e.i), R[i]) < 0 /\ CmpN(R[i], Num1(st, e.j)) < 0
    [] e.op = "midq" -> LET A == Num1(st, e.i) IN CmpQ(A, e.r) = CmpQ(A, e.c) /\ QCmp(e.r, e.c) = CmpQ(A, e.c)
    [] e.op = "sgn" -> e.r = SgnNum(PRead(e.p), Num1(st, e.i))
    [] e.op = "in" -> e.r = Inside(Num1(st, e.i), e.iv)
Allowed(st, e) == st.ok /\ IF Can(st, e) THEN ~Skipped(e) /\ Right(st, e) ELSE Skipped(e)
After(st, e) ==
  IF Skipped(e) THEN st
  ELSE IF e.op = "add" THEN [st EXCEPT !.added = <<PRead(e.p)>> \o @]
  ELSE IF e.op \in {"roots", "lift", "plus"} THEN [st EXCEPT !.enc = @ \o News(st, e)]
  ELSE st
=============================================================================
