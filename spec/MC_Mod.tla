------------------------------- MODULE MC_Mod -------------------------------
(* All histories of assignments to variables that depend on each other.  An   *)
(* entry that is known has one value; overriding twice is overriding once;    *)
(* the order of assignments does not matter, only what was assigned last.     *)
(* With Out, all histories of Depth changes as inputs, each change followed   *)
(* by questions.                                                              *)
EXTENDS Mod, Json
CONSTANTS Out, Depth
VARIABLES st, h, last
Z == <<0, 0, 0>>
X(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Con(p, r) == [t |-> "con", p |-> p, r |-> r]
Set(k, v) == [op |-> "set", m |-> 1, k |-> k, v |-> v, way |-> "assign"]
Sqrt2 == <<"r", <<<<<<0, 0, 0, 2>>, "1">>, <<<<0, 1, 0, 0>>, "-1">>>>, 2>>
Sets == {Set(<<"x", 1>>, <<"q", "1">>), Set(<<"x", 1>>, <<"p", <<<<X(2), "1">>, <<Z, "1">>>>>>), Set(<<"x", 1>>, Sqrt2),
         Set(<<"x", 2>>, <<"q", "4">>), Set(<<"x", 2>>, <<"p", <<<<X(3), "1">>>>>>), Set(<<"x", 3>>, <<"q", "9">>), Set(<<"x", 3>>, <<"q", "-1">>),
         Set(<<"b", 1>>, <<"F", Con(<<<<X(1), "1">>, <<Z, "-2">>>>, ">")>>)}
Erases == {[op |-> "erase", m |-> 1, k |-> <<"x", i>>] : i \in 1..3}
Changes == Sets \cup Erases \cup (IF Out THEN {[op |-> "clean", m |-> 1]} ELSE {})
Ask == <<[op |-> "evald", m |-> 1, k |-> <<"x", 1>>], [op |-> "evald", m |-> 1, k |-> <<"x", 2>>],
         [op |-> "evp", m |-> 1, p |-> <<<<X(2), "1">>, <<X(3), "-1">>>>],
         [op |-> "ev", m |-> 1, t |-> [t |-> "and", a |-> <<[t |-> "not", a |-> <<[t |-> "bool", v |-> 1]>>], Con(<<<<X(1), "1">>, <<X(2), "-1">>>>, "<=")>>]],
         [op |-> "evald", m |-> 1, k |-> <<"b", 1>>]>>
Pt(a, b, c) == [x |-> <<a, b, c>>, b |-> <<FALSE, TRUE>>, v |-> <<"0", "0", "0">>, u |-> <<0, 0, 0>>, f |-> <<<<>>, <<>>>>]
Hd == [op |-> "begin", nv |-> 3, types |-> "rrr", nb |-> 2, vw |-> <<1, 1, 1>>, nu |-> 3, pts |-> <<Pt("0", "1", "2"), Pt("3", "4", "-1"), Pt("1/2", "-1", "4")>>]
Keys3 == {<<"x", 1>>, <<"x", 2>>, <<"x", 3>>, <<"b", 1>>}
Init == st = Begin(Hd) /\ h = <<>> /\ last = [k \in Keys3 |-> <<"none">>]
Note(c) == CASE c.op = "set" -> [last EXCEPT ![c.k] = c.v] [] c.op = "erase" -> [last EXCEPT ![c.k] = <<"none">>] [] OTHER -> last
Step(c) == st' = After(st, c) /\ last' = Note(c) /\ UNCHANGED h
Next == IF Out THEN /\ h = <<>> /\ UNCHANGED <<st, last>>
                    /\ \E s \in [1..Depth -> Changes] : h' = <<1>> /\ PrintT("HIST" \o ToJson(LET RECURSIVE Cat(_)
                                                                                              Cat(i) == IF i > Depth THEN <<>> ELSE <<s[i]>> \o Ask \o Cat(i + 1)
                                                                                          IN  Cat(1)))
        ELSE \E c \in Changes : Step(c)
M == st.m[1]
Laws == Out \/
  LET V == Vals(st, M) IN
  /\ \A i \in DOMAIN V : Over(st, M, V[i]) = V[i]
  /\ \A k \in Keys3 : Known(st, M, k) /\ k[1] = "x" => \A i \in DOMAIN V : Cmp(V[i].x[k[2]], V[1].x[k[2]]) = 0
  /\ \A k \in Keys3 : (k \in DOMAIN M) = (last[k] # <<"none">>) /\ (k \in DOMAIN M => M[k] = last[k])
  \* what is not mentioned keeps the value of the point, and what is known does not depend on other entries
  /\ \A i \in DOMAIN V : \A j \in 1..3 : <<"x", j>> \notin DOMAIN M => V[i].x[j] = Point(st.pts[i]).x[j]
  \* a formula holds under the model exactly if it holds at the overridden point
  /\ EvOk(st, M, [t |-> "true"], [tree |-> [t |-> "true"], sat |-> 1])
=============================================================================
