------------------------------- MODULE ContIds ------------------------------
(* Identifier pools (C25).  hs[i] is the i-th identifier handed out (0: given *)
(* back), base the smallest identifier.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [hs |-> <<>>, peak |-> 0, base |-> e.base]
Used(st) == {i \in 1..Len(st.hs) : st.hs[i] # -1}
Ids(st) == {st.hs[i] : i \in Used(st)}
Pre(st, c) == CASE c.op = "free" -> c.h \in Used(st) [] OTHER -> TRUE
Ok(st, e) ==
  CASE e.op = "get" -> /\ e.r.id \notin Ids(st) /\ e.r.id >= st.base
                       \* identifiers given back are used again: they stay below the peak of simultaneous use
                       /\ e.r.id - st.base <= (IF Cardinality(Used(st)) < st.peak THEN st.peak - 1 ELSE st.peak)
                       /\ e.r.bound >= e.r.id /\ \A i \in Ids(st) : e.r.bound >= i
    [] OTHER -> \A i \in Ids(st) : e.r.bound >= i \/ (e.op = "free" /\ i = st.hs[e.h]) \/ e.op = "clear"
Next(st, e) ==
  CASE e.op = "get" -> [st EXCEPT !.hs = Append(@, e.r.id), !.peak = IF Cardinality(Used(st)) + 1 > @ THEN Cardinality(Used(st)) + 1 ELSE @]
    [] e.op = "free" -> [st EXCEPT !.hs[e.h] = -1]
    [] e.op = "clear" -> [st EXCEPT !.hs = [i \in DOMAIN @ |-> -1], !.peak = 0]
    [] OTHER -> st
=============================================================================
