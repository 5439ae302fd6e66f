--------------------------------- MODULE Con ---------------------------------
(* Constraints (C21): a polynomial compared to zero.  A session has nv        *)
(* variables, each real or integer, and a table of live constraints.  For     *)
(* each we keep what was asked for (p, rel) and what is stored (lhs, r).      *)
(* Solution sets are compared on the points of a grid plus those a command    *)
(* brings along; the reports about the stored form are exact.                 *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder, IvlLib
IntV == {"-3", "-2", "-1", "0", "1", "2", "3"}
RealV == {"-2", "-1", "-1/2", "0", "1/3", "1", "2"}
IntS == {"-2", "-1", "0", "1", "3"}
RealS == {"-1", "0", "1/2", "1", "2"}
GridOf(nv, ty) == {a \in [1..nv -> (IF nv < 3 THEN IntV \cup RealV ELSE IntS \cup RealS)] :
                     \A i \in 1..nv : a[i] \in (IF nv < 3 THEN (IF ty[i] = "i" THEN IntV ELSE RealV) ELSE (IF ty[i] = "i" THEN IntS ELSE RealS))}
Begin(e) == [nv |-> e.nv, ty |-> e.ty, grid |-> GridOf(e.nv, e.ty), cs |-> <<>>]
Throws(st, e) == FALSE
Rel(q, r) == CASE r = "=" -> q = "0" [] r = "!=" -> q # "0" [] r = "<" -> QSgn(q) < 0 [] r = "<=" -> QSgn(q) <= 0
               [] r = ">" -> QSgn(q) > 0 [] r = ">=" -> QSgn(q) >= 0
Inv(r) == CASE r = "=" -> "!=" [] r = "!=" -> "=" [] r = "<" -> ">=" [] r = "<=" -> ">" [] r = ">" -> "<=" [] r = ">=" -> "<"
Holds(nv, p, r, a) == Rel(PEval(nv, p, a), r)
Same(nv, p, r, q, s, S) == \A a \in S : Holds(nv, p, r, a) <=> Holds(nv, q, s, a)
Pts(st, e) == st.grid \cup (IF "pts" \in DOMAIN e THEN {e.pts[i] : i \in 1..Len(e.pts)} ELSE {})
\* a slot is either dead or [live, p, rel, lhs, r, id]
Live(st, i) == i + 1 \in 1..Len(st.cs) /\ st.cs[i + 1].live
C(st, i) == st.cs[i + 1]
Pre(st, c) ==
  CASE c.op \in {"view", "copy", "drop", "neg", "sat", "cons", "eval", "subst", "assign", "coeff"} -> Live(st, c.i)
    [] c.op \in {"cmp", "rel"} -> Live(st, c.i) /\ Live(st, c.j)
    [] OTHER -> TRUE
\* What is reported about a freshly made constraint.
Orig(st, e) ==
  CASE e.op = "mk" -> <<PRead(e.p), e.rel>>
    [] e.op = "bound" -> <<PSub(PVar(st.nv, e.v), PConst(st.nv, e.b)), e.rel>>
    [] e.op = "bool" -> <<PZero, IF e.b THEN "=" ELSE "<">>
    [] e.op = "neg" -> <<C(st, e.i).p, Inv(C(st, e.i).rel)>>
    [] e.op = "copy" -> <<C(st, e.i).p, C(st, e.i).rel>>
New(st, e) == LET o == Orig(st, e) IN [live |-> TRUE, p |-> o[1], rel |-> o[2], lhs |-> PRead(e.r.lhs), r |-> e.r.rel, id |-> e.r.id]
NewOk(st, e) ==
  LET r == e.r  o == Orig(st, e)  l == PRead(r.lhs)  S == Pts(st, e)  T == {a \in S : Holds(st.nv, o[1], o[2], a)} IN
  /\ PWellFormed(st.nv, r.lhs)
  /\ Same(st.nv, o[1], o[2], l, r.rel, S)
  \* consistency: 0 no solution, 1 every assignment is one, 2 undecided (which needs a variable)
  /\ r.cons \in {0, 1, 2} /\ (r.cons = 0 => T = {}) /\ (r.cons = 1 => T = S) /\ (r.cons = 2 => ~PIsConst(l))
  \* identity: the same object exactly if the stored forms coincide
  /\ \A i \in 1..Len(st.cs) : st.cs[i].live => ((st.cs[i].id = r.id) <=> (st.cs[i].lhs = l /\ st.cs[i].r = r.rel))
  /\ e.op = "copy" => r.id = C(st, e.i).id
Deg(p, v) == IF PIsZero(p) THEN 0 ELSE PDegIn(p, v)
Occ(p, v) == Cardinality({m \in DOMAIN p : m[v] > 0})
MinDeg(p, v) == LET S == {m[v] : m \in DOMAIN p} \ {0} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxDeg(p) == LET S == UNION {{m[v] : v \in DOMAIN m} : m \in DOMAIN p} \cup {0} IN CHOOSE x \in S : \A y \in S : y <= x
IsBnd(st, c) == PVars(c.lhs) # {} /\ Cardinality(PVars(c.lhs)) = 1 /\ MaxDeg(c.lhs) = 1
LC(p) == LeadCoef(p)
LowR(c) == c.r = "=" \/ (IF QSgn(LC(c.lhs)) < 0 THEN c.r \in {"<", "<="} ELSE c.r \in {">", ">="})
UpR(c) == c.r = "=" \/ (IF QSgn(LC(c.lhs)) > 0 THEN c.r \in {"<", "<="} ELSE c.r \in {">", ">="})
ViewOk(st, e) ==
  LET r == e.r  c == C(st, e.i)  p == c.lhs  V == PVars(p) IN
  /\ PIs(st.nv, r.lhs, p) /\ r.rel = c.r /\ r.id = c.id
  /\ {r.vars[i] : i \in 1..Len(r.vars)} = V /\ Len(r.vars) = Cardinality(V)
  /\ r.maxdeg = MaxDeg(p)
  /\ \A v \in 1..st.nv : /\ r.maxd[v] = Deg(p, v) /\ r.mind[v] = MinDeg(p, v) /\ r.occ[v] = Occ(p, v) /\ r.has[v] = (v \in V)
  /\ r.cpart = PConstPart(st.nv, p)
  /\ r.intv = (\A v \in V : st.ty[v] = "i") /\ r.realv = (\A v \in V : st.ty[v] = "r")
  /\ r.hasint = (\E v \in V : st.ty[v] = "i") /\ r.hasreal = (\E v \in V : st.ty[v] = "r")
  /\ r.strict = (c.r \in {"<", ">", "!="}) /\ r.weak = ~r.strict
  /\ r.bound = (IsBnd(st, c) /\ c.r # "!=") /\ r.nbound = (IsBnd(st, c) /\ c.r # "=")
  /\ r.lower = (r.bound /\ LowR(c)) /\ r.upper = (r.bound /\ UpR(c))
  \* the factorization is one of the left-hand side (a zero left-hand side has none)
  /\ PIsZero(p) \/ LET F[i \in 0..Len(r.fact)] == IF i = 0 THEN PConst(st.nv, "1") ELSE PMul(F[i - 1], PPow(st.nv, PRead(r.fact[i][1]), r.fact[i][2]))
                   IN  F[Len(r.fact)] = p /\ r.hasfact = (Len(r.fact) > 1)
  \* finitely many solutions in v are only claimed of equations in which v occurs alone
  /\ \A v \in 1..st.nv : r.fin[v] => (c.r = "=" /\ V \subseteq {v})
\* Boxes: per variable an interval or "none" (not assigned).
InBox(a, b) == \A i \in 1..Len(b) : b[i] = <<>> \/ In(a[i], Abs(b[i]))
\* the box's own corner and middle points of the right type are points to look at
BoxPts(st, b) == {a \in st.grid : InBox(a, b)}
Full4(b, V) == \A v \in V : b[v] # <<>>
Has(S) == S # {}
ConsOk(st, e) ==
  LET c == C(st, e.i)  r == e.r  S == BoxPts(st, e.box) \cup {e.pts[i] : i \in {j \in 1..Len(e.pts) : InBox(e.pts[j], e.box)}}
      T == {a \in S : Holds(st.nv, c.lhs, c.r, a)} IN
  /\ r.res \in {0, 1, 2} /\ r.res2 = r.res
  /\ (r.res = 0 => T = {}) /\ (r.res = 1 => T = S)
  /\ ~Full4(e.box, PVars(c.lhs)) => r.res = 2
  /\ PIsConst(c.lhs) => r.res # 2
  \* together with the bounds the constraint implies the stricter relation
  /\ \A a \in T : Holds(st.nv, c.lhs, r.srel, a)
EvalOk(st, e) ==
  LET c == C(st, e.i)  r == e.r  S == BoxPts(st, e.box) \cup {e.pts[i] : i \in {j \in 1..Len(e.pts) : InBox(e.pts[j], e.box)}} IN
  CASE r = 0 -> \A a \in S : ~Holds(st.nv, c.lhs, c.r, a)
    [] r = 1 -> \A a \in S : Holds(st.nv, c.lhs, c.r, a) <=> Holds(st.nv, c.lhs, "=", a)
    [] r = 2 -> ~PIsConst(c.lhs)
    [] r = 3 -> \A a \in S : Holds(st.nv, c.lhs, c.r, a)
    [] OTHER -> FALSE
\* Partial assignments: "" where a variable has none.
RECURSIVE Fill(_, _, _, _)
Fill(nv, p, a, i) == IF i > nv THEN p ELSE Fill(nv, IF a[i] = "" THEN p ELSE PEvalVar(nv, p, i, a[i]), a, i + 1)
SatOk(st, e) ==
  LET c == C(st, e.i)  q == Fill(st.nv, c.lhs, e.a, 1) IN
  IF PIsConst(q) THEN e.r = (IF Rel(PConstPart(st.nv, q), c.r) THEN 1 ELSE 0) ELSE e.r = 2
LinIn(st, p, v) == Deg(p, v) = 1 /\ PIsConst(PCoeffIn(p, v, 1)) /\ (st.ty[v] = "r" \/ QAbs(PConstPart(st.nv, PCoeffIn(p, v, 1))) = "1")
SubstOk(st, e) ==
  LET c == C(st, e.i)  r == e.r
      cand == {v \in 1..st.nv : v # e.excl /\ LinIn(st, c.lhs, v)} IN
  IF c.r = (IF e.neg THEN "!=" ELSE "=") /\ cand # {}
  THEN /\ r.ok /\ r.v \in cand /\ PWellFormed(st.nv, r.t)
       /\ LET k == PCoeffIn(c.lhs, r.v, 1) IN PMul(k, PSub(PVar(st.nv, r.v), PRead(r.t))) = c.lhs /\ r.v \notin PVars(PRead(r.t))
  ELSE ~r.ok
AssignOk(st, e) ==
  LET c == C(st, e.i)  p == c.lhs  r == e.r  V == PVars(p) IN
  IF c.r = "=" /\ Cardinality(V) = 1 /\ MaxDeg(p) = 1
  THEN r.ok /\ V = {r.v} /\ PIsZero(PEvalVar(st.nv, p, r.v, r.x))
  ELSE ~r.ok
CmpOk(st, e) ==
  LET a == C(st, e.i)  b == C(st, e.j)  r == e.r
      A(x) == Holds(st.nv, a.lhs, a.r, x)  B(x) == Holds(st.nv, b.lhs, b.r, x)  S == Pts(st, e) IN
  CASE r = 2 -> \A x \in S : A(x) <=> B(x)
    [] r = 1 -> \A x \in S : A(x) => B(x)
    [] r = -1 -> \A x \in S : B(x) => A(x)
    [] r = -2 -> \A x \in S : ~(A(x) /\ B(x))
    [] r = -3 -> TRUE
    [] r = -4 -> \A x \in S : A(x) <=> ~B(x)
    [] r = 0 -> a.id # b.id
    [] OTHER -> FALSE
Ok(st, e) ==
  CASE e.op \in {"mk", "bound", "bool", "neg", "copy"} -> NewOk(st, e)
    [] e.op = "view" -> ViewOk(st, e)
    [] e.op = "sat" -> SatOk(st, e)
    [] e.op = "cons" -> ConsOk(st, e)
    [] e.op = "eval" -> EvalOk(st, e)
    [] e.op = "subst" -> SubstOk(st, e)
    [] e.op = "assign" -> AssignOk(st, e)
    [] e.op = "coeff" -> (e.v \in PVars(C(st, e.i).lhs)) => PIs(st.nv, e.r, PCoeffIn(C(st, e.i).lhs, e.v, e.d))
    [] e.op = "cmp" -> CmpOk(st, e)
    [] e.op = "rel" -> LET a == C(st, e.i).id  b == C(st, e.j).id  r == e.r IN
         /\ r.eq = (a = b) /\ r.ne = (a # b) /\ (a = b => r.hash) /\ (r.lt \/ r.gt \/ r.eq)
         /\ ~(r.lt /\ r.gt) /\ (r.eq => ~r.lt /\ ~r.gt) /\ r.le = ~r.gt /\ r.ge = ~r.lt
    [] e.op = "simple" -> LET p == PRead(e.p)  k == PIsConst(p)  t == Rel(PConstPart(st.nv, p), e.rel) IN
         e.r.t = (k /\ t) /\ e.r.f = (k /\ ~t) /\ e.r.bt = TRUE /\ e.r.bf = TRUE
         /\ e.r.eq = (p = PRead(e.q) /\ e.rel = e.rel2) /\ (e.r.eq => e.r.hash)
    [] e.op = "bulk" -> e.r.distinct = e.n /\ e.r.stable
    [] OTHER -> TRUE
Step(st, e) ==
  CASE e.op \in {"mk", "bound", "bool", "neg", "copy"} -> [st EXCEPT !.cs = Append(@, New(st, e))]
    [] e.op = "drop" -> [st EXCEPT !.cs[e.i + 1].live = FALSE]
    [] OTHER -> st
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE Step(st, e)
=============================================================================
