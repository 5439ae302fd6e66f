------------------------------- MODULE MC_Rew -------------------------------
(* All quadratic polynomials in two variables with small coefficients: the    *)
(* decision of definiteness agrees with values on a grid; Chebyshev           *)
(* polynomials are closed under composition.                                  *)
EXTENDS Rew, TLC, Json
CONSTANTS Out, Cs
VARIABLES c, phase
Mons == <<<<2, 0>>, <<1, 1>>, <<0, 2>>, <<1, 0>>, <<0, 1>>, <<0, 0>>>>
Wire == SelectSeq([i \in 1..6 |-> <<Mons[i], c[i]>>], LAMBDA t : t[2] # "0")
Pol == PRead(Wire)
Init == c \in [1..6 -> Cs] /\ phase = 0
V == {"-60", "-1", "0", "1/2", "1", "60"}
Pts == [1..2 -> V]
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED c
        /\ Out => PrintT("HIST" \o ToJson(<<[op |-> "def", p |-> Wire, pts |-> <<>>], [op |-> "sos", p |-> Wire, nt |-> TRUE], [op |-> "sos", p |-> Wire, nt |-> FALSE],
                                            [op |-> "horner", p |-> Wire, h |-> 0], [op |-> "horner", p |-> Wire, h |-> 1], [op |-> "horner", p |-> Wire, h |-> 2], [op |-> "horner", p |-> Wire, h |-> 3]>>))
RECURSIVE Comp(_, _)
Comp(p, q) == IF p = <<>> THEN <<>> ELSE UAdd(<<Head(p)>>, UMul(q, Comp(Tail(p), q)))
Laws == (phase = 1 /\ ~Out) =>
  LET x == Inf(2, Pol)  vals == {PEval(2, Pol, a) : a \in Pts} IN
  IF x[1] = "fin" THEN \A q \in vals : QLe(x[2], q) ELSE \E q \in vals : QLt(q, "-20")
ASSUME \A m, n \in 1..4 : UTrim(Comp(Cheb(m), Cheb(n))) = Cheb(m * n)
ASSUME \A n \in 0..8 : UEval(Cheb(n), "1") = "1"
=============================================================================
