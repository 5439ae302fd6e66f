--------------------------------- MODULE Vs ---------------------------------
(***************************************************************************)
(* Square root expressions and virtual substitution (C26).                 *)
(* An expression (c + f sqrt(r)) / d has a value at every parameter point   *)
(* with d # 0 and r >= 0: a number A + B sqrt(R) with rational A, B, R.     *)
(* Substituting a test point t for x in a constraint yields a disjunction   *)
(* of conjunctions without x which holds at a parameter point exactly if    *)
(* the constraint holds at x = t, right after t, or towards an infinity.    *)
(***************************************************************************)
EXTENDS RanLib, TLC
RelH(r, s) == CASE r = "=" -> s = 0 [] r = "!=" -> s # 0 [] r = "<" -> s < 0 [] r = "<=" -> s <= 0 [] r = ">" -> s > 0 [] r = ">=" -> s >= 0
\* ---- the numbers A + B sqrt(R) ----------------------------------------------
N(A, B, R) == [A |-> A, B |-> B, R |-> R]
NSgn(x) ==
  LET a == QSgn(x.A)  b == IF x.R = "0" THEN 0 ELSE QSgn(x.B) IN
  IF a = 0 \/ b = 0 \/ a = b THEN (IF a # 0 THEN a ELSE b)
  ELSE a * QCmp(QMul(x.A, x.A), QMul(QMul(x.B, x.B), x.R))
\* Arithmetic with one radicand.
NAdd(x, y) == N(QAdd(x.A, y.A), QAdd(x.B, y.B), x.R)
NNeg(x) == N(QNeg(x.A), QNeg(x.B), x.R)
NMul(x, y) == N(QAdd(QMul(x.A, y.A), QMul(QMul(x.B, y.B), x.R)), QAdd(QMul(x.A, y.B), QMul(x.B, y.A)), x.R)
RECURSIVE Horner(_, _, _)
Horner(p, x, i) == IF i > Len(p) THEN N("0", "0", x.R) ELSE NAdd(N(p[i], "0", x.R), NMul(x, Horner(p, x, i + 1)))
PolyN(p, x) == Horner(p, x, 1)
\* As a real algebraic number, for comparisons across radicands.
NRan(x) == IF x.B = "0" \/ x.R = "0" THEN Rat(x.A)
  ELSE LET l == AllRoots(<<QSub(QMul(x.A, x.A), QMul(QMul(x.B, x.B), x.R)), QMul("-2", x.A), "1">>) IN IF QSgn(x.B) > 0 THEN l[2] ELSE l[1]
NEq(x, y) == IF x.R = y.R THEN NSgn(NAdd(x, NNeg(y))) = 0 ELSE Cmp(NRan(x), NRan(y)) = 0
\* ---- expressions -----------------------------------------------------------
Val(nv, wire, X) == PEval(nv, PSumList(wire), X)
Def(nv, s, X) == Val(nv, s.d, X) # "0" /\ QSgn(Val(nv, s.r, X)) >= 0
NAt(nv, s, X) == LET d == Val(nv, s.d, X) IN N(QDiv(Val(nv, s.c, X), d), QDiv(Val(nv, s.f, X), d), Val(nv, s.r, X))
HasRoot(s) == ~PIsZero(PSumList(s.r)) /\ ~PIsZero(PSumList(s.f))
Raw(c, f, d, r) == [c |-> c, f |-> f, d |-> d, r |-> r]
\* s written down equals t: the same value wherever t is defined; a root that is the square of a polynomial may be taken with either sign.
Denotes(st, t, s) ==
  LET nv == st.nv
      P(w) == PSumList(w) IN
  /\ ~PIsZero(P(s.d))
  /\ IF HasRoot(t) /\ ~HasRoot(s) /\ ~PIsConst(P(t.r))
     THEN LET e == PSub(PMul(P(s.c), P(t.d)), PMul(P(t.c), P(s.d))) IN
          PMul(e, e) = PMul(PMul(PMul(P(t.f), P(t.f)), P(t.r)), PMul(P(s.d), P(s.d)))
     ELSE \A i \in DOMAIN st.pts : LET X == st.pts[i] IN
          Def(nv, t, X) => Def(nv, s, X) /\ NEq(NAt(nv, t, X), NAt(nv, s, X))
NormalForm(s) == (PIsZero(PSumList(s.f)) <=> PIsZero(PSumList(s.r)))
\* ---- constraints at a parameter point -----------------------------------------
UniAt(nv, wire, v, X) == LET q == PutRats(nv, PSumList(wire), [i \in (1..nv) \ {v} |-> Rat(X[i])], 1) IN IF PIsZero(q) THEN <<>> ELSE UniOf(nv, q, v)
ConHolds(nv, t, X) == RelH(t.r, QSgn(Val(nv, t.p, X)))
AllHold(nv, l, X) == \A i \in DOMAIN l : ConHolds(nv, l[i], X)
CasesHold(nv, l, X) == \E i \in DOMAIN l : AllHold(nv, l[i], X)
\* Sign of a univariate polynomial at a test point.
RECURSIVE SgnAfter(_, _)
SgnAfter(p, x) == IF p = <<>> THEN 0 ELSE LET s == NSgn(PolyN(p, x)) IN IF s # 0 THEN s ELSE SgnAfter(UDeriv(p), x)
SgnInf(p, neg) == IF p = <<>> THEN 0 ELSE IF neg /\ Len(p) % 2 = 0 THEN -QSgn(p[Len(p)]) ELSE QSgn(p[Len(p)])
SgnTest(p, k, x) == CASE k = "normal" -> NSgn(PolyN(p, x)) [] k = "eps" -> SgnAfter(p, x) [] k = "minf" -> SgnInf(p, TRUE) [] k = "pinf" -> SgnInf(p, FALSE)
InBox(box, X) == \A i \in DOMAIN box : QLe(ToString(box[i][2]), X[box[i][1]]) /\ QLe(X[box[i][1]], ToString(box[i][3]))
TreesFree(l, v) == \A i \in DOMAIN l : \A j \in DOMAIN l[i] : v \notin PVars(PSumList(l[i][j].p))
\* ---- elimination -------------------------------------------------------------
\* Some x satisfies all constraints: decided on the roots, between them and beyond.
RECURSIVE Prod(_, _)
Prod(ps, i) == IF i > Len(ps) THEN <<"1">> ELSE IF ps[i] = <<>> THEN Prod(ps, i + 1) ELSE UMul(ps[i], Prod(ps, i + 1))
\* A rational between two neighbouring roots.
RECURSIVE Gap(_, _)
Gap(X, Y) == IF QLt(X.b, Y.a) THEN QDiv(QAdd(X.b, Y.a), "2") ELSE IF X.b = Y.a /\ ~IsRat(X) /\ ~IsRat(Y) THEN X.b ELSE Gap(Half(X), Half(Y))
Samples(ps) == LET r == AllRoots(Prod(ps, 1)) IN
  IF r = <<>> THEN {Rat("0")}
  ELSE {r[i] : i \in DOMAIN r} \cup {Rat(QSub(r[1].a, "1")), Rat(QAdd(r[Len(r)].b, "1"))} \cup {Rat(Gap(r[i], r[i + 1])) : i \in 1..(Len(r) - 1)}
SatAll(ps, rs, x) == \A i \in DOMAIN ps : RelH(rs[i], SgnPoly(ps[i], x))
Exists(ps, rs) == \E x \in Samples(ps) : SatAll(ps, rs, x)
\* ---- the rules ---------------------------------------------------------------
\* (q + r sqrt(t)) / s compared with 0, without a square root; t >= 0 and s # 0.
RuleEq(q, r, t) == \/ q = 0 /\ (r = 0 \/ t = 0)
                   \/ q * r < 0 /\ q * q = r * r * t
RuleLess(q, r, t, s) == LET d == q * q - r * r * t IN
                        \/ q * s < 0 /\ (d > 0 \/ r * s <= 0)
                        \/ r * s < 0 /\ d < 0
RuleLeq(q, r, t, s) == RuleEq(q, r, t) \/ RuleLess(q, r, t, s)
\* Test candidates for quantifier elimination: minus infinity, every zero of degree at most 2 and right after it.
ZerosOf(p) == IF Len(p) = 2 THEN {N(QNeg(QDiv(p[1], p[2])), "0", "0")}
              ELSE IF Len(p) = 3 THEN LET D == QSub(QMul(p[2], p[2]), QMul("4", QMul(p[1], p[3])))  a == QMul("2", p[3]) IN
                   IF QSgn(D) < 0 THEN {} ELSE {N(QNeg(QDiv(p[2], a)), QDiv(b, a), D) : b \in {"1", "-1"}}
              ELSE {}
Candidates(ps) == {<<"minf", N("0", "0", "0")>>} \cup UNION {{<<k, x>> : k \in {"normal", "eps"}, x \in ZerosOf(ps[i])} : i \in DOMAIN ps}
ExistsVs(ps, rs) == \E c \in Candidates(ps) : \A i \in DOMAIN ps : RelH(rs[i], SgnTest(ps[i], c[1], c[2]))
\* ---- operations ----------------------------------------------------------------
Begin(e) == [nv |-> e.nv, pts |-> e.pts, s |-> [k \in {} |-> 0]]
Sub(st, w, m) == LET RECURSIVE go(_, _)
                     go(p, i) == IF i > Len(m) THEN p ELSE go(PEvalVar(st.nv, p, m[i][1], m[i][2]), i + 1)
                 IN  go(PSumList(w), 1)
ConstOk(p) == PIsConst(p) => QSgn(IF PIsZero(p) THEN "0" ELSE PConstVal(p)) >= 0
RECURSIVE ISqrtBetween(_, _, _)
ISqrtBetween(a, lo, hi) == IF QLe(QSub(hi, lo), "1") THEN lo
  ELSE LET m == ZQuoF(QAdd(lo, hi), "2") IN IF QLe(QMul(m, m), a) THEN ISqrtBetween(a, m, hi) ELSE ISqrtBetween(a, lo, m)
IsSquareZ(a) == QPow(ISqrtBetween(a, "0", QAdd(a, "1")), 2) = a
IsQSquare(c) == QSgn(c) >= 0 /\ IsSquareZ(QNum(c)) /\ IsSquareZ(QDen(c))
CV(p) == IF PIsZero(p) THEN "0" ELSE PConstVal(p)
About(st, e) == e.k \in {"normal", "eps"} /\ LET s == st.s[e.x] IN \E w \in {s.c, s.f, s.d, s.r} : e.v \in PVars(PSumList(w))
Throws(st, e) == FALSE
Pre(st, e) ==
  CASE e.op = "sq" -> ~PIsZero(PSumList(e.d)) /\ ConstOk(PSumList(e.q))
    [] e.op = "sqop" -> LET x == st.s[e.x]  y == st.s[e.y] IN
         IF e.o = "/" THEN ~HasRoot(y) /\ ~PIsZero(PSumList(y.c))
         ELSE ~HasRoot(x) \/ ~HasRoot(y) \/ PSumList(x.r) = PSumList(y.r)
    [] e.op = "sqsub" -> LET x == st.s[e.x] IN ~PIsZero(Sub(st, x.d, e.m)) /\ ConstOk(Sub(st, x.r, e.m))
    [] e.op = "sqeval" -> LET x == st.s[e.x] IN /\ ~PIsZero(Sub(st, x.d, e.m)) /\ ConstOk(Sub(st, x.r, e.m))
                                                /\ (e.n # 0 \/ CV(Sub(st, x.f, e.m)) = "0" \/ IsQSquare(CV(Sub(st, x.r, e.m))))
    [] e.op = "subst" -> ~About(st, e)
    [] e.op = "vsubst" -> ~About(st, e)
    [] OTHER -> TRUE
Combine(st, e) ==
  LET x == st.s[e.x]  y == st.s[e.y]
      ok(X) == Def(st.nv, x, X) /\ Def(st.nv, y, X) /\ (e.o = "/" => Val(st.nv, y.c, X) # "0")
      R(X) == IF HasRoot(x) THEN Val(st.nv, x.r, X) ELSE Val(st.nv, y.r, X)
      a(X) == [NAt(st.nv, x, X) EXCEPT !.R = R(X)]
      b(X) == [NAt(st.nv, y, X) EXCEPT !.R = R(X)]
      w(X) == CASE e.o = "+" -> NAdd(a(X), b(X)) [] e.o = "-" -> NAdd(a(X), NNeg(b(X))) [] e.o = "*" -> NMul(a(X), b(X))
                [] e.o = "/" -> NMul(a(X), N(QDiv("1", b(X).A), "0", R(X)))
  IN  \A i \in DOMAIN st.pts : LET X == st.pts[i] IN ok(X) => Def(st.nv, e.r, X) /\ NEq(NAt(st.nv, e.r, X), w(X))
RECURSIVE UseAll(_, _)
UseAll(m, X) == IF m = <<>> THEN X ELSE UseAll(Tail(m), [X EXCEPT ![m[1][1]] = m[1][2]])
EvalOk(st, e) ==
  LET x == st.s[e.x]  X == UseAll(e.m, [i \in 1..st.nv |-> "0"])  v == NAt(st.nv, x, X)  q == e.r[2] IN
  IF v.B = "0" \/ IsQSquare(v.R) THEN NEq(v, N(q, "0", "0")) /\ (IsQSquare(v.R) => e.r[1])
  ELSE /\ e.r[1] = FALSE
       /\ LET s == NSgn(N(QSub(q, v.A), QNeg(v.B), v.R)) IN IF e.n < 0 THEN s <= 0 ELSE s >= 0
       /\ LET a == QDiv(QSub(q, v.A), v.B) IN QLe(QAbs(QSub(QMul(a, a), v.R)), QMul(v.R, "1/1000000000000"))
InfoOk(st, e) ==
  LET s == st.s[e.x]  P(w) == PSumList(w)  r == e.r
      vs == UNION {PVars(P(w)) : w \in {s.c, s.f, s.d, s.r}}
      d == CV(P(s.d)) IN
  /\ r.root = HasRoot(s)
  /\ r.poly => ~HasRoot(s) /\ \A i \in DOMAIN st.pts : Def(st.nv, s, st.pts[i]) => Val(st.nv, r.aspoly, st.pts[i]) = NAt(st.nv, s, st.pts[i]).A
  /\ (~HasRoot(s) /\ PIsConst(P(s.d))) => r.poly
  /\ r.const = (vs = {})
  /\ r.rat = (vs = {} /\ ~HasRoot(s))
  /\ r.rat => r.asrat = QDiv(CV(P(s.c)), d)
  /\ r.int = (vs = {} /\ ~HasRoot(s) /\ QIsInt(QDiv(CV(P(s.c)), d)))
  /\ {r.vars[i] : i \in DOMAIN r.vars} = vs
Distinct(xs) == \A i, j \in DOMAIN xs : i < j => ~NEq(xs[i], xs[j])
\* The zeros whose conditions hold are all real zeros of the polynomial in v, unless it vanishes identically.
ZerosOk(st, e) ==
  IF e.r.dec # 2 THEN e.r.l = <<>> /\ \A i \in DOMAIN st.pts : RelH(e.rel, QSgn(Val(st.nv, e.p, st.pts[i]))) = (e.r.dec = 1)
  ELSE
  LET p == PSumList(e.p) IN
  /\ e.r.ok \/ PDegIn(p, e.v) > 2
  /\ e.r.ok => \A i \in DOMAIN st.pts :
       LET X == st.pts[i]
           u == UniAt(st.nv, e.p, e.v, X)
           on == SelectSeq(e.r.l, LAMBDA z : AllHold(st.nv, z.cond, X))
           xs == [j \in DOMAIN on |-> NAt(st.nv, on[j].x, X)]
       IN  /\ \A j \in DOMAIN on : Def(st.nv, on[j].x, X) /\ (u = <<>> \/ NSgn(PolyN(u, xs[j])) = 0)
           /\ (u # <<>>) => IF CountReal(u) = 2 THEN Len(on) = 2 /\ Distinct(xs) ELSE (CountReal(u) = 0) = (on = <<>>)
  /\ \A j \in DOMAIN e.r.l : \A w \in {e.r.l[j].x.c, e.r.l[j].x.f, e.r.l[j].x.d, e.r.l[j].x.r} : e.v \notin PVars(PSumList(w))
  /\ TreesFree([j \in DOMAIN e.r.l |-> e.r.l[j].cond], e.v)
TestAt(st, e, X) == IF e.k \in {"normal", "eps"} THEN NAt(st.nv, st.s[e.x], X) ELSE N("0", "0", "0")
TestDef(st, e, X) == e.k \in {"normal", "eps"} => Def(st.nv, st.s[e.x], X)
\* A constraint that simplifies to a truth value is not substituted into.
SubstOk(st, e) ==
  IF e.r.dec # 2 THEN \A i \in DOMAIN st.pts : RelH(e.rel, QSgn(Val(st.nv, e.p, st.pts[i]))) = (e.r.dec = 1)
  ELSE
  /\ e.r.ok \/ PDegIn(PSumList(e.p), e.v) > 3
  /\ e.r.ok =>
       /\ TreesFree(e.r.l, e.v)
       /\ \A i \in DOMAIN st.pts : LET X == st.pts[i] IN
            (TestDef(st, e, X) /\ InBox(e.box, X)) => CasesHold(st.nv, e.r.l, X) = RelH(e.rel, SgnTest(UniAt(st.nv, e.p, e.v, X), e.k, TestAt(st, e, X)))
\* Comparisons with numbers and root expressions.
WNum(st, w, X) == CASE w[1] = "q" -> <<Rat(w[2])>> [] w[1] = "a" -> <<Alg(w[2], w[3], w[4])>>
  [] w[1] = "r" -> LET q == PutRats(st.nv + 1, PSumList(w[2]), [i \in 1..st.nv |-> Rat(X[i])], 1)
                       l == IF PIsZero(q) THEN <<>> ELSE AllRoots(UniOf(st.nv + 1, q, st.nv + 1)) IN IF Len(l) < w[3] THEN <<>> ELSE <<l[w[3]]>>
RootDegree(st, w) == PDegIn(PSumList(w[2]), st.nv + 1)
RootVars(st, w) == IF w[1] = "r" THEN PVars(PSumList(w[2])) ELSE {}
Simple(st, w) == CASE w[1] = "q" -> TRUE [] w[1] = "a" -> Len(w[2]) <= 3
                   [] w[1] = "r" -> RootDegree(st, w) = 1 /\ w[3] = 1 /\ PIsConst(PCoeffIn(PSumList(w[2]), st.nv + 1, 1))
VcRel(t, s) == RelH(t.r, s) # t.neg
VSubstOk(st, e) ==
  LET t == e.t IN
  IF e.v \in RootVars(st, t.p) THEN ~e.r.ok
  ELSE IF t.v # e.v THEN e.r.ok /\ Len(e.r.l) = 1 /\ Len(e.r.l[1]) = 1 /\ LET u == e.r.l[1][1] IN
       u.t = "vc" /\ u.v = t.v /\ \A i \in DOMAIN st.pts : LET X == st.pts[i]  a == WNum(st, t.p, X)  b == WNum(st, u.p, X) IN
                         ((a # <<>> /\ VcRel(t, Cmp(Rat(X[t.v]), a[1]))) \/ (a = <<>> /\ t.neg)) = ((b # <<>> /\ VcRel(u, Cmp(Rat(X[t.v]), b[1]))) \/ (b = <<>> /\ u.neg))
  ELSE /\ e.r.ok \/ e.k = "pinf" \/ ~Simple(st, t.p)
       /\ e.r.ok => /\ TreesFree(e.r.l, e.v)
                    /\ \A i \in DOMAIN st.pts : LET X == st.pts[i]  w == WNum(st, t.p, X) IN
                         (TestDef(st, e, X) /\ w # <<>>) =>
                           LET s == CASE e.k = "minf" -> -1 [] e.k = "pinf" -> 1
                                      [] OTHER -> LET c == Cmp(NRan(TestAt(st, e, X)), w[1]) IN IF e.k = "eps" /\ c = 0 THEN 1 ELSE c
                           IN  CasesHold(st.nv, e.r.l, X) = VcRel(t, s)
VZerosOk(st, e) ==
  LET t == e.t IN
  IF t.v # e.v \/ e.v \in RootVars(st, t.p) THEN TRUE
  ELSE /\ e.r.ok \/ ~Simple(st, t.p)
       /\ e.r.ok => \A i \in DOMAIN st.pts : LET X == st.pts[i]  w == WNum(st, t.p, X)
                                                 on == SelectSeq(e.r.l, LAMBDA z : AllHold(st.nv, z.cond, X)) IN
            w # <<>> => Len(on) = 1 /\ Def(st.nv, on[1].x, X) /\ Cmp(NRan(NAt(st.nv, on[1].x, X)), w[1]) = 0
ElimOk(st, e) ==
  /\ e.r.ok \/ \E i \in DOMAIN e.cs : PDegIn(PSumList(e.cs[i][1]), e.v) > 2
  /\ e.r.ok => \A i \in DOMAIN st.pts : LET X == st.pts[i] IN
       (\E c \in DOMAIN e.r.l : /\ AllHold(st.nv, e.r.l[c].cond, X)
                                /\ \A k \in DOMAIN e.r.l[c].each : CasesHold(st.nv, e.r.l[c].each[k], X))
       = Exists([k \in DOMAIN e.cs |-> UniAt(st.nv, e.cs[k][1], e.v, X)], [k \in DOMAIN e.cs |-> e.cs[k][2]])
Ok(st, e) ==
  CASE e.op = "sq" -> Denotes(st, Raw(e.c, e.f, e.d, e.q), e.r) /\ NormalForm(e.r)
    [] e.op = "sqp" -> Denotes(st, Raw(e.p, <<>>, <<<<MOne(st.nv), "1">>>>, <<>>), e.r) /\ ~HasRoot(e.r)
    [] e.op = "sqop" -> Combine(st, e) /\ NormalForm(e.r)
    [] e.op = "sqin" -> \A i \in DOMAIN st.pts : LET X == st.pts[i]  s == st.s[e.x] IN
         Def(st.nv, s, X) => Def(st.nv, e.r, X) /\ NEq(NAt(st.nv, e.r, X), PolyN(UniAt(st.nv, e.p, e.v, X), NAt(st.nv, s, X)))
    [] e.op = "sqsub" -> LET s == st.s[e.x]  W(w) == LET p == Sub(st, w, e.m) IN p IN
         \A i \in DOMAIN st.pts : LET X == UseAll(e.m, st.pts[i]) IN
           Def(st.nv, s, X) => Def(st.nv, e.r, X) /\ (NEq(NAt(st.nv, s, X), NAt(st.nv, e.r, X))
              \/ (HasRoot(s) /\ ~HasRoot(e.r) /\ ~PIsConst(Sub(st, s.r, e.m)) /\ LET v == NAt(st.nv, s, X) IN NEq([v EXCEPT !.B = QNeg(v.B)], NAt(st.nv, e.r, X))))
    [] e.op = "sqeval" -> EvalOk(st, e)
    [] e.op = "sqeq" -> LET x == st.s[e.x]  y == st.s[e.y] IN
         e.r = (IF \A k \in {"c", "f", "d", "r"} : PSumList(x[k]) = PSumList(y[k]) THEN 1 ELSE 0)
    [] e.op = "sqinfo" -> InfoOk(st, e)
    [] e.op = "zeros" -> ZerosOk(st, e)
    [] e.op = "vzeros" -> VZerosOk(st, e)
    [] e.op = "subst" -> SubstOk(st, e)
    [] e.op = "vsubst" -> VSubstOk(st, e)
    [] e.op = "elim" -> ElimOk(st, e)
Allowed(st, e) == IF "crash" \in DOMAIN e \/ "throw" \in DOMAIN e THEN FALSE
                  ELSE IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF e.op \in {"sq", "sqp", "sqop", "sqin", "sqsub"} /\ "skip" \notin DOMAIN e
                THEN [st EXCEPT !.s = [k \in DOMAIN st.s \cup {e.to} |-> IF k = e.to THEN e.r ELSE st.s[k]]] ELSE st
=============================================================================
