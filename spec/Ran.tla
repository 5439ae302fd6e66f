-------------------------------- MODULE Ran ---------------------------------
(* Objects for real algebraic numbers (C28).  They carry a representation     *)
(* that operations may refine; which number it denotes never changes.         *)
EXTENDS RanLib
\* ---- the objects -----------------------------------------------------------
Begin(e) == [nv |-> e.nv, o |-> <<>>, h |-> <<>>]
Throws(st, e) == FALSE
N(st) == Len(st.o)
Has(st, i) == i \in 1..N(st)
AllHave(st, a) == \A k \in DOMAIN a : a[k] # 0 => Has(st, a[k])
Args(st, a) == [k \in {k \in DOMAIN a : a[k] # 0} |-> st.o[a[k]]]
Covered(st, e) == AllHave(st, e.a) /\ \A v \in PVars(PRead(e.m)) : e.a[v] # 0
\* Numbers whose defining polynomials have small degrees: larger ones take too long to eliminate.
Deg(X) == IF IsRat(X) THEN 1 ELSE Len(X.p) - 1
Affordable(A) == LET RECURSIVE Prod(_)
                     Prod(S) == IF S = {} THEN 1 ELSE LET k == CHOOSE k \in S : TRUE IN Deg(A[k]) * Prod(S \ {k})
                 IN  Prod(DOMAIN A) <= 40
Pre(st, e) ==
  CASE e.op = "mk" -> /\ Len(e.p) > 1 /\ QLt(e.l, e.u) /\ UEval(e.p, e.l) # "0" /\ UEval(e.p, e.u) # "0" /\ CountOpen(e.p, e.l, e.u) = 1
                      /\ (e.safe \/ UIsSqFree(e.p))
    [] e.op \in {"cmp", "compare", "set"} -> Has(st, e.i) /\ Has(st, e.j)
    [] e.op = "between" -> Has(st, e.i) /\ Has(st, e.j) /\ Cmp(st.o[e.i], st.o[e.j]) < 0
    [] e.op = "betweenn" -> Has(st, e.i) /\ (IF e.flip THEN CmpC(st.o[e.i], e.c) > 0 ELSE CmpC(st.o[e.i], e.c) < 0)
    [] e.op \in {"copy", "refine", "cmpn", "sgn", "sgnp", "isroot", "query", "abs", "inside"} -> Has(st, e.i)
    [] e.op \in {"eval", "con"} -> Covered(st, e) /\ Affordable(Args(st, e.a))
    [] e.op = "rootsat" -> AllHave(st, e.a) /\ \A k \in DOMAIN e.a : e.a[k] # 0 => IsRat(st.o[e.a[k]])
    [] OTHER -> TRUE
Delta(e) == e.r.d
New(st, e) == {k \in DOMAIN Delta(e) : Delta(e)[k][1] > N(st)}
NewCount(st, e) == Cardinality(New(st, e))
WireOf(e, h) == LET k == CHOOSE k \in DOMAIN Delta(e) : Delta(e)[k][1] = h IN Delta(e)[k][2]
Obj(st, e, h) == Num(WireOf(e, h))
NewObjs(st, e) == [k \in 1..NewCount(st, e) |-> Obj(st, e, N(st) + k)]
\* Representations that changed still denote the same number; new ones denote one.
DeltaOk(st, e) ==
  /\ {Delta(e)[k][1] : k \in New(st, e)} = (N(st) + 1)..(N(st) + NewCount(st, e))
  /\ \A k \in DOMAIN Delta(e) : LET h == Delta(e)[k][1]  w == Delta(e)[k][2] IN
       /\ Valid(w)
       /\ h <= N(st) => Same(Num(w), IF e.op = "set" /\ h = e.i THEN st.o[e.j] ELSE st.o[h])
Pushes(e) == e.op \in {"num", "zero", "mk", "copy", "abs", "eval"}
One(st, e) == IF Pushes(e) THEN NewCount(st, e) = 1 /\ e.r.v = N(st) + 1 ELSE e.op \in {"roots", "rootsat"} \/ NewCount(st, e) = 0
ListIs(st, e) == e.r.v = [k \in 1..NewCount(st, e) |-> N(st) + k]
RootsAtOk(st, e) ==
  LET p == PRead(e.m)  A == Args(st, e.a)  rest == PVars(p) \ (DOMAIN A \cup {e.v})
      q == PutRats(st.nv, p, A, 1)
      k == IF PIsZero(p) THEN "null" ELSE IF PIsConst(p) THEN "roots" ELSE IF rest # {} THEN "nonuni" ELSE IF PIsZero(q) THEN "null" ELSE "roots"
  IN  IF e.van THEN e.r.v = (k = "null") /\ NewCount(st, e) = 0
      ELSE IF k # "roots" THEN NewCount(st, e) = 0 /\ e.r.v = k
      ELSE ListIs(st, e) /\ RootList(IF PIsConst(q) THEN <<PConstVal(q)>> ELSE UniOf(st.nv, q, e.v), e.iv, NewObjs(st, e))
QueryOk(st, e) == LET X == st.o[e.i]  r == e.r.v IN
  /\ r.zero = (Sgn(X) = 0) /\ r.int = IsInt(X) /\ r.below = Floor(X) /\ r.floor = Floor(X) /\ r.ceil = Ceil(X)
  /\ CmpC(X, r.above) < 0 /\ CmpC(X, r.under) > 0
  /\ (IF IsRat(X) THEN r.branch = X.a ELSE QLe(X.a, r.branch) /\ QLe(r.branch, X.b))
  /\ \A k \in DOMAIN st.h : st.h[k] # "" /\ Cmp(st.o[k], X) = 0 => st.h[k] = r.hash
Ok(st, e) ==
  /\ DeltaOk(st, e) /\ One(st, e)
  /\ LET v == e.r.v IN
     CASE e.op = "roots" -> IF e.p = <<>> THEN v = "null" ELSE ListIs(st, e) /\ RootList(e.p, e.iv, NewObjs(st, e))
       [] e.op = "rootsat" -> RootsAtOk(st, e)
       [] e.op = "num" -> CmpC(Obj(st, e, v), e.c) = 0
       [] e.op = "zero" -> CmpC(Obj(st, e, v), "0") = 0
       [] e.op = "mk" -> Same(Obj(st, e, v), Alg(e.p, e.l, e.u))
       [] e.op = "copy" -> Same(Obj(st, e, v), st.o[e.i])
       [] e.op \in {"set", "refine"} -> v = "ok"
       [] e.op \in {"cmp", "compare"} -> v = RelHolds(e.rel, Cmp(st.o[e.i], st.o[e.j]))
       [] e.op = "cmpn" -> v = RelHolds(e.rel, IF e.flip THEN -CmpC(st.o[e.i], e.c) ELSE CmpC(st.o[e.i], e.c))
       [] e.op = "sgn" -> v = Sgn(st.o[e.i])
       [] e.op = "sgnp" -> v = SgnPoly(e.p, st.o[e.i])
       [] e.op = "isroot" -> v = IsRootOf(e.p, st.o[e.i])
       [] e.op = "query" -> QueryOk(st, e)
       [] e.op = "abs" -> Same(Obj(st, e, v), IF Sgn(st.o[e.i]) < 0 THEN Neg(st.o[e.i]) ELSE st.o[e.i])
       [] e.op = "between" -> CmpC(st.o[e.i], v) < 0 /\ CmpC(st.o[e.j], v) > 0
       [] e.op = "betweenn" -> IF e.flip THEN QLt(e.c, v) /\ CmpC(st.o[e.i], v) > 0 ELSE QLt(v, e.c) /\ CmpC(st.o[e.i], v) < 0
       [] e.op = "inside" -> v = InIvl(st.o[e.i], e.iv)
       [] e.op = "eval" -> ValueOk(st.nv, e.m, Args(st, e.a), Obj(st, e, v))
       [] e.op = "con" -> v = RelHolds(e.rel, SignOf(st.nv, e.m, Args(st, e.a)))
       [] e.op = "nums" -> /\ QGt(v.above, e.c) /\ QLt(v.under, e.c) /\ v.branch = e.c
                           /\ QLt(e.c, e.d) => QLt(e.c, v.between) /\ QLt(v.between, e.d)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE LET o1 == [k \in 1..(N(st) + NewCount(st, e)) |-> IF \E j \in DOMAIN Delta(e) : Delta(e)[j][1] = k THEN Obj(st, e, k)
                                                       ELSE IF e.op = "set" /\ k = e.i THEN st.o[e.j] ELSE st.o[k]]
           h1 == [k \in 1..Len(o1) |-> IF e.op = "query" /\ k = e.i THEN e.r.v.hash ELSE IF k <= Len(st.h) /\ ~(e.op = "set" /\ k = e.i) THEN st.h[k] ELSE ""]
       IN  [st EXCEPT !.o = o1, !.h = h1]
=============================================================================
