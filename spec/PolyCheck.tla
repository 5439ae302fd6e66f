----------------------------- MODULE PolyCheck ------------------------------
(* The overridden operators of Poly agree with their definitions.          *)
EXTENDS Poly, TLC
PP == INSTANCE PolyPure
VARIABLES p, q
Mons == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
Polys == {<<>>} \cup UNION {[{a, b} -> {"1", "-1", "2/3"}] : a \in Mons, b \in {<<0, 0>>, <<2, 0>>}}
Init == p \in Polys /\ q \in Polys
Next == UNCHANGED <<p, q>>
Inv ==
  /\ PAdd(p, q) = PP!PAdd(p, q) /\ PSub(p, q) = PP!PSub(p, q) /\ PMul(p, q) = PP!PMul(p, q)
  /\ PScale("-3/2", p) = PP!PScale("-3/2", p) /\ PScale("0", p) = PP!PScale("0", p)
  /\ \A n \in 0..2 : PPow(2, p, n) = PP!PPow(2, p, n)
  /\ PSubst(2, p, 1, q) = PP!PSubst(2, p, 1, q)
=============================================================================
