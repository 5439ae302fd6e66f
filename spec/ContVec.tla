------------------------------- MODULE ContVec ------------------------------
(* Growing bit vectors (C25): finite sets of naturals.                       *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [i \in 1..e.k |-> {}]
Set(l) == {l[i] : i \in 1..Len(l)}
Moves(c) == c.op \in {"new", "set", "clear", "grow", "bin", "inp", "copy"}
Reg(c) == IF c.op \in {"set", "clear", "grow", "inp"} THEN c.a ELSE c.d
Val(st, c) ==
  CASE c.op = "new" -> {c.n}
    [] c.op = "set" -> IF c.v THEN st[c.a] \cup {c.n} ELSE st[c.a] \ {c.n}
    [] c.op = "clear" -> {}
    [] c.op = "grow" -> st[c.a]
    [] c.op = "copy" -> st[c.a]
    [] OTHER -> st[c.a] \cup st[c.b]
MinOf(s) == CHOOSE n \in s : \A m \in s : n <= m
Lim == 330
Pre(st, c) == TRUE
Ok(st, e) ==
  LET r == e.r IN
  CASE Moves(e) -> /\ Set(r.l) = Val(st, e) /\ Set(r.it) = Val(st, e)
                   /\ \A n \in Val(st, e) : n < r.sz
                   /\ r.empty = (Val(st, e) = {})
                   /\ r.first = IF Val(st, e) = {} THEN r.sz ELSE MinOf(Val(st, e))
    [] e.op = "cmp" -> r.eq = (st[e.a] = st[e.b]) /\ r.sub = (st[e.a] \subseteq st[e.b])
Next(st, e) == IF Moves(e) THEN [st EXCEPT ![Reg(e)] = Val(st, e)] ELSE st
=============================================================================
