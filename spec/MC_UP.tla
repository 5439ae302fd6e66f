-------------------------------- MODULE MC_UP -------------------------------
(* Euclidean laws for all pairs of small rational polynomials.             *)
EXTENDS UP, TLC
CONSTANT MaxDeg
VARIABLES a, b, phase
Cs == {"-1", "0", "1", "2"}
S == [nv |-> 1, x |-> 1, ring |-> "Q"]
Polys == {FromList(S, l, 1) : l \in [1..(MaxDeg + 1) -> Cs]}
Init == a \in Polys /\ b = PZero /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ a' = a /\ b' \in Polys
Divs(d, p) == PIsZero(DivRemQ(S, p, d)[2])
Laws == phase = 1 =>
  /\ ~PIsZero(b) =>
       LET d == DivRemQ(S, a, b) IN
       /\ a = PAdd(PMul(d[1], b), d[2])
       /\ PIsZero(d[2]) \/ Deg(S, d[2]) < Deg(S, b)
       /\ LET g == GcdQ(S, a, b) IN
          /\ Divs(g, a) /\ Divs(g, b) /\ Num(Lc(S, g)) = "1"
          /\ g = GcdQ(S, b, a)
          /\ GcdQ(S, PMul(a, b), b) = Monic(S, b)
       /\ ~PIsZero(a) => LET k == Deg(S, a) - Deg(S, b) + 1 IN
            k >= 1 => F!Prem(a, b, 1) = PScale(QPow(Num(Lc(S, b)), k), d[2])
  /\ Mirror(S, Mirror(S, a)) = a /\ Mirror(S, PMul(a, b)) = PMul(Mirror(S, a), Mirror(S, b))
  /\ ~PIsZero(Tc(S, a)) => Rev(S, Rev(S, a)) = a
  /\ Rev(S, PMul(a, b)) = PMul(Rev(S, a), Rev(S, b))
=============================================================================
