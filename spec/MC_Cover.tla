------------------------------ MODULE MC_Cover ------------------------------
(* All small set systems: the laws that justify the preprocessing steps and   *)
(* the search of the exact solver; every system is also replayed.             *)
EXTENDS Cover, TLC, Json
CONSTANTS N, E, Out
VARIABLES s, phase
Init == s \in [1..N -> SUBSET (0..(E - 1))] /\ phase = 0
Min1(I, J) == IsCover(s, I) /\ IsCover(s, J) => IsCover(s, I \cup J)
RECURSIVE Lst(_)
Lst(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Lst(S \ {m})
Next == phase = 0 /\ phase' = 1 /\ s' = s /\ (Out => PrintT("HIST" \o ToJson([i \in 1..N |-> Lst(s[i])])))
Cov == {I \in SUBSET (1..N) : IsCover(s, I)}
Ess == Essential(s)
\* one representative element per column
Rep == [i \in 1..N |-> {e \in s[i] : \A f \in All(s) : f < e => Column(s, f) # Column(s, e)}]
Laws == phase = 1 =>
  /\ \A I \in Cov : Ess \subseteq I
  /\ \A I \in SUBSET (1..N) : IsCover(Rep, I) = IsCover(s, I)
  /\ Columns(Rep) = Columns(s)
  /\ LET R == Less(s, Ess) IN \A I \in SUBSET (1..N) : IsCover(s, I \cup Ess) = IsCover(R, I)
  /\ MinCover(s) = Cardinality(Ess) + MinCover(Less(s, Ess))
  \* if all active sets were needed, all were essential: the exact search need not look at that size
  /\ MinCover(s) = Cardinality(Active(s)) => Ess = Active(s)
  /\ \E I \in Cov : Cardinality(I) = MinCover(s)
=============================================================================
