-------------------------------- MODULE MC_GB --------------------------------
(* Laws of the reference computation for all pairs of small polynomials; the  *)
(* pairs are also printed, as inputs for the library.                         *)
EXTENDS GB, TLC, Json
CONSTANTS Out
VARIABLES a, b, phase
NV == 2
Mons == {m \in [1..NV -> 0..2] : MDeg(m) <= 2}
Univ == {PMono(m, "1") : m \in Mons \ {MOne(NV)}}
         \cup {PAdd(PMono(mm[1], x), PMono(mm[2], "2")) : mm \in {q \in Mons \X Mons : MLess(q[1], q[2])}, x \in {"1", "-3"}}
Init == a \in Univ /\ b = PZero /\ phase = 0
Wire(p) == LET D == ListOf(DOMAIN p) IN [i \in 1..Len(D) |-> <<D[i], p[D[i]]>>]
Next == phase = 0 /\ phase' = 1 /\ a' = a /\ b' \in Univ /\ (Out => PrintT("HIST" \o ToJson(<<Wire(a), Wire(b')>>)))
Laws == (phase = 1 /\ ~Out) =>
  LET B == RefGB({a, b})  L == ListOf(B) IN
  /\ IsReducedGB(B)
  \* it generates the same ideal: both inputs reduce to zero, and no common zero is lost
  /\ InIdeal(a, B) /\ InIdeal(b, B)
  /\ \A x \in Pts(NV) : Zero(NV, {a, b}, x) <=> Zero(NV, B, x)
  \* independent of the presentation
  /\ RefGB({PScale("5", b), PAdd(a, PMul(b, PVar(NV, 1)))}) = B
  /\ RefGB(B) = B
  /\ InIdeal(PAdd(PMul(a, PVar(NV, 2)), PMul(b, b)), B)
  \* normal forms are linear
  /\ NF(PAdd(PMul(a, a), b), L) = PZero
  /\ NF(PAdd(PVar(NV, 1), PConst(NV, "3")), L) = PAdd(NF(PVar(NV, 1), L), NF(PConst(NV, "3"), L))
=============================================================================
