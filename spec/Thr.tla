--------------------------------- MODULE Thr ---------------------------------
(***************************************************************************)
(* Histories of threads using the pools (C27).  A history is the sequence   *)
(* of calls and returns of all threads, in the order in which they          *)
(* happened.  A reference is in use from the return of the operation that   *)
(* made it to the call of the one that gives it up.                         *)
(***************************************************************************)
EXTENDS Poly, TLC
Begin(e) == [nv |-> e.nv]
Empty(st) == [e |-> MOne(st.nv), obj |-> 0, id |-> 0, on |-> FALSE]
Start(st, e) == [m |-> [t \in DOMAIN e.progs |-> [k \in 0..3 |-> Empty(st)]],
                 p |-> [t \in DOMAIN e.progs |-> [k \in 0..3 |-> IF k < Len(e.polys[t]) THEN PSumList(e.polys[t][k + 1]) ELSE PZero]],
                 v |-> {}, q |-> [t \in DOMAIN e.progs |-> 89], ok |-> TRUE]
Makes == {"mk", "mul", "div", "lcm"}
Expect(S, t, o) ==
  LET a == S.m[t][o.a].e  b == S.m[t][o.b].e IN
  CASE o.o = "mk" -> o.e [] o.o = "mul" -> MMul(a, b) [] o.o = "lcm" -> MLcm(a, b)
    [] o.o = "div" -> IF MDivides(b, a) THEN MDiv(a, b) ELSE MOne(Len(a))
\* Equal monomials in use are one object, different ones have different identifiers.
Consistent(S) ==
  LET u == UNION {{S.m[t][k] : k \in {k \in 0..3 : S.m[t][k].on /\ MDeg(S.m[t][k].e) > 0}} : t \in DOMAIN S.m} IN
  /\ \A x \in u : x.obj # 0 /\ x.id # 0
  /\ \A x, y \in u : (x.e = y.e) = (x.obj = y.obj) /\ (x.e = y.e) = (x.id = y.id)
PResult(S, t, o) == LET a == S.p[t][o.a]  b == S.p[t][o.b] IN CASE o.o = "padd" -> PAdd(a, b) [] o.o = "psub" -> PSub(a, b) [] o.o = "pmul" -> PMul(a, b)
IsPrime(n) == n > 1 /\ \A d \in 2..n : (d * d <= n) => n % d # 0
NextPrime(n) == CHOOSE x \in (n + 1)..(2 * n) : IsPrime(x) /\ \A y \in (n + 1)..(x - 1) : ~IsPrime(y)
\* Each thread enumerates the primes on its own, from the 25th on.
Step1(st, S, o, h) ==
  LET t == h.t IN
  IF h.call THEN (IF o.o \in Makes \cup {"drop"} THEN [S EXCEPT !.m[t][o.c].on = FALSE] ELSE S)
  ELSE CASE o.o \in Makes -> LET x == Expect(S, t, o)
                                 n == [S EXCEPT !.m[t][o.c] = [e |-> x, obj |-> h.obj, id |-> h.id, on |-> TRUE]]
                             IN  [n EXCEPT !.ok = /\ S.ok /\ h.e = x /\ Consistent(n)]
         [] o.o = "drop" -> [S EXCEPT !.m[t][o.c] = Empty(st)]
         [] o.o = "cmp" -> [S EXCEPT !.ok = S.ok /\ (h.n = 1) = (S.m[t][o.a].e = S.m[t][o.b].e)]
         [] o.o = "peq" -> [S EXCEPT !.ok = S.ok /\ (h.n = 1) = (S.p[t][o.a] = S.p[t][o.b])]
         [] o.o \in {"padd", "psub", "pmul"} -> LET x == PResult(S, t, o) IN [S EXCEPT !.ok = S.ok /\ PSumList(h.p) = x /\ Len(h.p) = Cardinality(DOMAIN x), !.p[t][o.c] = x]
         [] o.o \in {"fresh", "named"} -> [S EXCEPT !.ok = S.ok /\ h.n \notin S.v /\ (o.o = "named" => h.s = o.name), !.v = @ \cup {h.n}]
         [] o.o = "prime" -> LET x == NextPrime(S.q[t]) IN [S EXCEPT !.ok = S.ok /\ h.n = x, !.q[t] = x]
RECURSIVE Fold(_, _, _, _)
Fold(st, e, S, i) == IF i > Len(e.r.h) \/ ~S.ok THEN S ELSE Fold(st, e, Step1(st, S, e.progs[e.r.h[i].t][e.r.h[i].i], e.r.h[i]), i + 1)
\* Every thread runs its whole program, in order.
Complete(e) == \A t \in DOMAIN e.progs : LET own == SelectSeq(e.r.h, LAMBDA x : x.t = t) IN
  /\ Len(own) = 2 * Len(e.progs[t])
  /\ \A i \in DOMAIN own : own[i].i = ((i + 1) \div 2) /\ own[i].call = (i % 2 = 1)
Ok(st, e) ==
  LET S == Fold(st, e, Start(st, e), 1)
      left == {S.m[x[1]][x[2]].e : x \in {x \in (DOMAIN S.m) \X (0..3) : MDeg(S.m[x[1]][x[2]].e) > 0}} IN
  /\ Complete(e) /\ S.ok
  \* The pool holds what is in use and nothing else.
  /\ e.r.live = e.r.base + Cardinality(left) /\ e.r.end = e.r.base
Throws(st, e) == FALSE
Allowed(st, e) == Ok(st, e)
After(st, e) == st
=============================================================================
