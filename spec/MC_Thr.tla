-------------------------------- MODULE MC_Thr --------------------------------
(* Every pair of short programs over two monomials with every pair of         *)
(* preemption points.                                                         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Points, Step
VARIABLES ph
Mk(c, e) == [o |-> "mk", a |-> 0, b |-> 0, c |-> c, e |-> e]
Drop(c) == [o |-> "drop", a |-> 0, b |-> 0, c |-> c]
X == <<1, 0>>
Y == <<1, 2>>
Progs == {<<Mk(0, X), Drop(0), Mk(0, Y)>>, <<Mk(0, X), Drop(0), Mk(1, X), Drop(1)>>, <<Mk(0, X), [o |-> "mul", a |-> 0, b |-> 0, c |-> 1], Drop(0), Mk(0, X)>>,
          <<Mk(0, Y), Mk(1, X), Drop(0), [o |-> "cmp", a |-> 0, b |-> 1, c |-> 0]>>}
Init == ph = <<>>
Next == /\ ph = <<>>
        /\ \E p, q \in Progs, i \in 0..Points, j \in 1..Points :
             /\ (i + j) % Step = 0 /\ ph' = <<p, q, i, j>>
             /\ PrintT("HIST" \o ToJson(<<[op |-> "run", progs |-> <<p, q>>, polys |-> <<<<>>, <<>>>>, fine |-> FALSE, sched |-> <<<<i, 1>>, <<i + j, 0>>>>]>>))
=============================================================================
