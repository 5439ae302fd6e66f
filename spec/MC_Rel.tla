------------------------------- MODULE MC_Rel -------------------------------
(* The algebra of relations, over all relations and all differences of a      *)
(* range; each combination is printed as a command for the library.           *)
EXTENDS Rel, TLC, Json
VARIABLES r, a, b, phase
Vals == {"-2", "-1/2", "0", "1/3", "1", "5"}
Init == r \in Rels /\ a \in Vals /\ b \in Vals /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<r, a, b>>
        /\ PrintT("HIST" \o ToJson(<<[op |-> "rel", rel |-> r], [op |-> "cmp", rel |-> r, a |-> a, b |-> b, ty |-> "q"], [op |-> "num", rel |-> r, c |-> a, ty |-> "q"]>>
             \o [i \in 1..3 |-> [op |-> "sign", rel |-> r, s |-> i - 2]] \o <<[op |-> "pair", rel |-> r, rel2 |-> Inverse(r)], [op |-> "pair", rel |-> r, rel2 |-> r]>>))
S(x, y) == QSgn(QSub(x, y))
Laws == /\ Inverse(Inverse(r)) = r /\ Turned(Turned(r)) = r /\ Inverse(Turned(r)) = Turned(Inverse(r))
        /\ Holds(S(a, b), r) = ~Holds(S(a, b), Inverse(r))
        /\ Holds(S(a, b), r) = Holds(S(b, a), Turned(r))
        /\ Strict(r) = ~Strict(Inverse(r)) /\ Strict(r) = Strict(Turned(r))
        /\ Holds(S(a, b), r) = (CASE r = "=" -> a = b [] r = "!=" -> a # b [] r = "<" -> QLt(a, b) [] r = "<=" -> QLe(a, b) [] r = ">" -> QGt(a, b) [] OTHER -> QGe(a, b))
=============================================================================
