------------------------------- MODULE Cover --------------------------------
(* Set cover problems (C23).  sets[i] is the set with identifier i - 1;       *)
(* names lists the user's names of the sets in the order of first mention     *)
(* (typed problems) and is unused otherwise.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Set(l) == {l[i] : i \in 1..Len(l)}
Un(sets, I) == UNION {sets[i] : i \in I}
All(sets) == Un(sets, 1..Len(sets))
IsCover(sets, I) == All(sets) \subseteq Un(sets, I)
Active(sets) == {i \in 1..Len(sets) : sets[i] # {}}
\* The sets that are the only ones with some element.
Essential(sets) == {i \in 1..Len(sets) : \E e \in sets[i] : \A j \in 1..Len(sets) : j # i => e \notin sets[j]}
\* The columns: which sets contain an element.  They decide which selections are covers.
Column(sets, e) == {i \in 1..Len(sets) : e \in sets[i]}
Columns(sets) == {Column(sets, e) : e \in All(sets)}
Less(sets, I) == LET u == Un(sets, I) IN [i \in 1..Len(sets) |-> sets[i] \ u]
MinCover(sets) == LET C == {I \in SUBSET Active(sets) : IsCover(sets, I)}
                      k == CHOOSE n \in 0..Len(sets) : (\E I \in C : Cardinality(I) = n) /\ (\A I \in C : Cardinality(I) >= n)
                  IN  k
\* Two problems over the same identifiers, one perhaps without trailing empty sets.
At(sets, i) == IF i <= Len(sets) THEN sets[i] ELSE {}
SameRest(a, b) == \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : At(a, i) = At(b, i)
AllEmpty(sets) == Active(sets) = {}
Read(l) == [i \in 1..Len(l) |-> Set(l[i])]
------------------------------------------------------------------------------
Begin(e) == [kind |-> e.kind, n |-> IF e.kind = "cov" THEN e.n ELSE 0, sets |-> <<>>, names |-> <<>>]
Throws(st, e) == FALSE
Known(st, x) == x \in Set(st.names)
IdOf(st, x) == IF st.kind = "typed" THEN (IF Known(st, x) THEN CHOOSE i \in 1..Len(st.names) : st.names[i] = x ELSE Len(st.names) + 1) ELSE x + 1
NameOf(st, i) == IF st.kind = "typed" THEN st.names[i] ELSE i - 1
Grow(sets, i) == [j \in 1..(IF i > Len(sets) THEN i ELSE Len(sets)) |-> At(sets, j)]
AddTo(st, x, E) == LET i == IdOf(st, x) IN
  [st EXCEPT !.sets = [Grow(@, i) EXCEPT ![i] = @ \cup E], !.names = IF st.kind = "typed" /\ ~Known(st, x) THEN Append(@, x) ELSE @]
Pre(st, c) ==
  CASE c.op = "select" -> c.i < Len(st.sets)
    [] c.op = "core" -> 0..(st.n - 1) \subseteq All(st.sets)
    [] c.op = "sat" -> ~(0..(st.n - 1) \subseteq All(st.sets))
    [] c.op = "add" -> ~Known(st, c.x)
    [] OTHER -> TRUE
Complete == {"greedy", "exact", "trivial"}
Sel(st, e) == {i \in 1..Len(st.sets) : NameOf(st, i) \in Set(e.r.sel)}
HeurOk(st, e) ==
  LET S == st.sets  I == Sel(st, e)  R == Read(e.r.rest) IN
  \* the selection consists of given sets, none twice
  /\ Len(e.r.sel) = Cardinality(Set(e.r.sel)) /\ Cardinality(I) = Len(e.r.sel)
  /\ e.h \in Complete => IsCover(S, I)
  /\ CASE e.h = "trivial" -> SameRest(R, S) \/ AllEmpty(R)
       [] e.h = "greedy" -> SameRest(R, Less(S, I))
       [] e.h = "exact" -> AllEmpty(R) /\ Cardinality(I) = MinCover(S)
       [] e.h \in {"bounded", "weighted"} -> SameRest(R, Less(S, I)) /\ Cardinality(Active(R)) <= e.bound
       [] e.h = "dups" -> I = {} /\ Columns(R) = Columns(S) /\ Cardinality(All(R)) = Cardinality(Columns(S))
       [] e.h = "essential" -> I = Essential(S) /\ SameRest(R, Less(S, I))
Ok(st, e) ==
  LET r == e.r  S == st.sets IN
  CASE e.op = "heur" -> HeurOk(st, e)
    [] e.op = "view" -> /\ r.n = Len(S) /\ r.active = Cardinality(Active(S)) /\ Read(r.sets) = S /\ Set(r.left) = All(S)
                        /\ r.elems >= (IF All(S) = {} THEN 0 ELSE 1 + CHOOSE m \in All(S) : \A x \in All(S) : x <= m)
                        /\ S # <<>> => \A i \in 1..Len(S) : Cardinality(S[i]) <= Cardinality(S[r.largest + 1])
                        /\ (st.kind = "typed" => \A i \in 1..Len(S) : r.names[i] = st.names[i])
    [] e.op = "conf" -> r = (0..(st.n - 1) \subseteq All(S))
    [] e.op = "sat" -> r \in 0..(st.n - 1) /\ r \notin All(S)
    [] e.op = "core" -> LET I == {i \in 1..Len(S) : st.names[i] \in Set(r)} IN
                        /\ Len(r) = Cardinality(I) /\ 0..(st.n - 1) \subseteq Un(S, I)
    [] OTHER -> TRUE
Step(st, e) ==
  CASE e.op = "set" -> AddTo(st, e.x, {e.e})
    [] e.op = "setb" -> AddTo(st, e.x, Set(e.l))
    [] e.op = "add" -> [st EXCEPT !.sets = Append(@, Set(e.l)), !.names = Append(@, e.x)]
    [] e.op = "select" -> [st EXCEPT !.sets = Less(@, {e.i + 1})]
    [] e.op = "heur" -> [st EXCEPT !.sets = Read(e.r.rest)]
    [] OTHER -> st
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE Step(st, e)
=============================================================================
