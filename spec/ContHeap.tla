------------------------------ MODULE ContHeap ------------------------------
(* Priority heap (C25): a bag of entries <<priority, tag>> with unique tags.  *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [h |-> {}, n |-> 0]
IsMax(x, h) == x \in h /\ \A y \in h : y[1] <= x[1]
Bag(l) == {l[i] : i \in 1..Len(l)}
Whole(l, h) == Bag(l) = h /\ Len(l) = Cardinality(h)
Pre(st, c) == CASE c.op \in {"pop", "poppos", "dectop"} -> st.h # {} [] OTHER -> TRUE
Removed(st, e) == CASE e.op = "pop" -> {e.r.x} [] e.op = "poppos" -> {e.r.x} [] e.op = "dectop" -> {e.r.x} [] OTHER -> {}
Added(st, e) ==
  CASE e.op = "push" -> {<<e.p, st.n + 1>>}
    [] e.op = "pushes" -> {<<e.l[i], st.n + i>> : i \in 1..Len(e.l)}
    [] e.op = "dectop" -> {<<e.p, st.n + 1>>}
    [] OTHER -> {}
Content(st, e) == (st.h \ Removed(st, e)) \cup Added(st, e)
Ok(st, e) ==
  /\ e.op \in {"pop", "dectop"} => IsMax(e.r.x, st.h)
  /\ e.op = "poppos" => e.r.x \in st.h
  /\ LET h == Content(st, e) IN
     /\ Whole(e.r.l, h) /\ Whole(e.r.copy, h) /\ e.r.n = Cardinality(h) /\ e.r.empty = (h = {})
     /\ h # {} => IsMax(e.r.top, h)
Next(st, e) == [h |-> Content(st, e), n |-> st.n + Cardinality(Added(st, e))]
=============================================================================
