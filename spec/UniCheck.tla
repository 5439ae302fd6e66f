------------------------------ MODULE UniCheck ------------------------------
(* The overridden operators of UniLib agree with their definitions.           *)
EXTENDS UniLib, TLC
P == INSTANCE UniPure
VARIABLES p, q
Polys == {<<>>} \cup UNION {{f \in [1..n -> {"0", "1", "-3/2"}] : f[n] # "0"} : n \in 1..3}
Init == p \in Polys /\ q \in Polys
Next == UNCHANGED <<p, q>>
Places == {"-oo", "0", "1/3"}
Inv ==
  /\ UAdd(p, q) = P!UAdd(p, q) /\ UMul(p, q) = P!UMul(p, q) /\ UScale("-2/3", p) = P!UScale("-2/3", p) /\ UScale("0", p) = P!UScale("0", p)
  /\ q # <<>> => UDivRem(p, q) = P!UDivRem(p, q)
  /\ UGcd(p, q) = P!UGcd(p, q) /\ UEval(p, "-2/3") = P!UEval(p, "-2/3")
  /\ p # <<>> => \A a \in Places, b \in Places : CountBetween(UMul(p, p), a, b) = P!CountBetween(UMul(p, p), a, b) /\ CountOpen(p, a, b) = P!CountOpen(p, a, b)
=============================================================================
