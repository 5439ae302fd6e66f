---------------------------------- MODULE Sym ----------------------------------
(* Symmetries of formulas (C37).  An assignment gives a value (a string) to   *)
(* each variable: arithmetic ones 1..nv, then Boolean ones, bit vectors and   *)
(* elements of a sort.  A formula means the set of assignments, out of a box  *)
(* that all permutations of variables of one kind map to itself, at which it  *)
(* holds.  A symmetry is a permutation that keeps this set.                   *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, TLC
Dom(k) == CASE k = "b" -> {"0", "1"} [] k = "i" -> {"-1", "0", "2"} [] k = "r" -> {"-1", "1/2", "2"}
            [] k = "v1" -> {"0", "1"} [] k = "v2" -> {"0", "1", "2", "3"} [] k = "u" -> {"0", "1", "2"}
RECURSIVE Box(_, _)
Box(kinds, n) == IF n = 0 THEN {<<>>} ELSE {Append(a, v) : a \in Box(kinds, n - 1), v \in Dom(kinds[n])}
Begin(e) == [nv |-> e.nv, ob |-> e.nv, ov |-> e.nv + e.nb, ou |-> e.nv + e.nb + Len(e.vw), kinds |-> e.kinds, box |-> Box(e.kinds, Len(e.kinds))]
Throws(st, e) == FALSE
\* ---- meaning ---------------------------------------------------------------
RelHolds(q, r) == CASE r = "=" -> q = "0" [] r = "!=" -> q # "0" [] r = "<" -> QLt(q, "0") [] r = "<=" -> QLe(q, "0") [] r = ">" -> QGt(q, "0") [] r = ">=" -> QGe(q, "0")
BvRel(r) == CASE r = "eq" -> "=" [] r = "ne" -> "!=" [] r = "ult" -> "<" [] r = "ule" -> "<=" [] r = "ugt" -> ">" [] r = "uge" -> ">="
BvVal(st, t, a) == IF t.o = "var" THEN a[st.ov + t.i] ELSE t.n
\* all ways to set the positions in the set q to a Boolean value
RECURSIVE Set(_, _)
Set(a, q) == IF q = {} THEN {a} ELSE LET i == CHOOSE i \in q : TRUE IN UNION {Set([a EXCEPT ![i] = v], q \ {i}) : v \in Dom("b")}
RECURSIVE Ev(_, _, _)
Ev(st, t, a) ==
  CASE t.t = "true" -> TRUE [] t.t = "false" -> FALSE
    [] t.t = "bool" -> a[st.ob + t.v] = "1"
    [] t.t = "con" -> RelHolds(PEval(st.nv, PRead(t.p), a), t.r)
    [] t.t = "vc" -> RelHolds(QSub(a[t.v], t.p[2]), t.r) # t.neg
    [] t.t = "bv" -> RelHolds(QSub(BvVal(st, t.x, a), BvVal(st, t.y, a)), BvRel(t.r))
    [] t.t = "ueq" -> (a[st.ou + t.x.u] = a[st.ou + t.y.u]) # t.neg
    [] t.t = "not" -> ~Ev(st, t.a[1], a)
    [] t.t = "and" -> \A i \in DOMAIN t.a : Ev(st, t.a[i], a)
    [] t.t = "or" -> \E i \in DOMAIN t.a : Ev(st, t.a[i], a)
    [] t.t = "xor" -> Cardinality({i \in DOMAIN t.a : Ev(st, t.a[i], a)}) % 2 = 1
    [] t.t = "iff" -> \A i, j \in DOMAIN t.a : Ev(st, t.a[i], a) = Ev(st, t.a[j], a)
    [] t.t = "implies" -> Ev(st, t.a[1], a) => Ev(st, t.a[2], a)
    [] t.t = "ite" -> IF Ev(st, t.a[1], a) THEN Ev(st, t.a[2], a) ELSE Ev(st, t.a[3], a)
    [] t.t = "exists" -> \E b \in Set(a, {st.ob + t.q[i] : i \in DOMAIN t.q}) : Ev(st, t.a[1], b)
    [] t.t = "forall" -> \A b \in Set(a, {st.ob + t.q[i] : i \in DOMAIN t.q}) : Ev(st, t.a[1], b)
Models(st, t) == {a \in st.box : Ev(st, t, a)}
\* ---- permutations ----------------------------------------------------------
N(st) == Len(st.kinds)
IsPerm(st, s) == /\ \A k \in DOMAIN s : s[k][1] \in 1..N(st) /\ s[k][2] \in 1..N(st) /\ st.kinds[s[k][1]] = st.kinds[s[k][2]]
                 /\ Cardinality({s[k][1] : k \in DOMAIN s}) = Len(s) /\ {s[k][1] : k \in DOMAIN s} = {s[k][2] : k \in DOMAIN s}
Perm(st, s) == [i \in 1..N(st) |-> LET j == {k \in DOMAIN s : s[k][1] = i} IN IF j = {} THEN i ELSE s[CHOOSE k \in j : TRUE][2]]
Id(n) == [i \in 1..n |-> i]
Apply(g, a) == [i \in DOMAIN g |-> a[g[i]]]
\* everything reached from the assignments (or permutations) in S
RECURSIVE Closure(_, _)
Closure(G, S) == LET T == S \cup {Apply(g, a) : g \in G, a \in S} IN IF T = S THEN S ELSE Closure(G, T)
\* ---- permutations that only rename and reorder -----------------------------
Plain == {"true", "false", "bool", "con", "not", "and", "or", "xor", "iff", "implies", "ite"}
RECURSIVE IsPlain(_)
IsPlain(t) == t.t \in Plain /\ \A i \in DOMAIN t.a : IsPlain(t.a[i])
RECURSIVE Used(_, _)
Used(st, t) == CASE t.t = "bool" -> {st.ob + t.v} [] t.t = "con" -> PVars(PRead(t.p)) [] OTHER -> UNION {Used(st, t.a[i]) : i \in DOMAIN t.a}
RECURSIVE Canon(_, _, _)
Canon(st, t, g) ==
  [t |-> t.t, v |-> IF t.t = "bool" THEN CHOOSE i \in DOMAIN g : g[i] = st.ob + t.v ELSE 0,
   p |-> {<<[i \in 1..st.nv |-> t.p[k][1][g[i]]], t.p[k][2]>> : k \in DOMAIN t.p}, r |-> t.r,
   a |-> {<<IF t.t \in {"implies", "ite"} THEN i ELSE 0, Canon(st, t.a[i], g)>> : i \in DOMAIN t.a}]
Syntactic(st, t) ==
  LET U == Used(st, t)
      all == {[i \in 1..N(st) |-> IF i \in U THEN p[i] ELSE i] : p \in {q \in Permutations(U) : \A i \in U : st.kinds[q[i]] = st.kinds[i]}}
      c == Canon(st, t, Id(N(st)))
  IN  {g \in all : Canon(st, t, g) = c}
\* ---- results ---------------------------------------------------------------
\* Some member of each orbit is left, but not everything if a variable that can be compared moves.
Comparable(st, g) == \E i \in DOMAIN g : g[i] # i /\ st.kinds[i] \in {"b", "i", "r"}
OkBreak(st, gens, M, brk, first) ==
  LET G == IF first /\ Len(gens) > 0 THEN {gens[1]} ELSE {gens[i] : i \in DOMAIN gens}
      B == Models(st, brk)
  IN  /\ M \subseteq Closure(G, M \cap B)
      /\ (\E g \in G : Comparable(st, g)) => B # st.box
Ok(st, e) ==
  CASE e.op = "sym" ->
         LET r == e.r  M == Models(st, r.tree)  gens == [i \in DOMAIN r.syms |-> Perm(st, r.syms[i])]
         IN  /\ M = Models(st, e.x)
             /\ \A i \in DOMAIN r.syms : IsPerm(st, r.syms[i])
             /\ \A i \in DOMAIN gens : gens[i] # Id(N(st)) /\ {Apply(gens[i], a) : a \in M} = M
             /\ OkBreak(st, gens, M, r.brk, e.first)
             /\ IsPlain(r.tree) => Syntactic(st, r.tree) \subseteq Closure({gens[i] : i \in DOMAIN gens}, {Id(N(st))})
    [] e.op = "lex" ->
         OkBreak(st, [i \in DOMAIN e.syms |-> Perm(st, e.syms[i])], st.box, e.r.brk, e.first)
Allowed(st, e) == "skip" \notin DOMAIN e /\ Ok(st, e)
After(st, e) == st
=============================================================================
