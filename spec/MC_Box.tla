------------------------------- MODULE MC_Box -------------------------------
(* Term-wise interval evaluation and contraction by solving for a variable,   *)
(* on all combinations of small polynomials and boxes: no point of a grid is  *)
(* lost.  The same combinations are inputs for the library.                   *)
EXTENDS Box, TLC, Json
CONSTANT Out
VARIABLES p, box, rel, phase
M(i, j, c) == <<<<i, j>>, c>>
S(l) == PSumList(l)
Ps == {S(<<M(1, 0, "1"), M(0, 1, "-2")>>), S(<<M(2, 0, "1"), M(0, 1, "-1")>>), S(<<M(1, 1, "1"), M(0, 0, "-1")>>), S(<<M(2, 1, "1"), M(1, 0, "-1")>>),
       S(<<M(2, 0, "1"), M(0, 2, "1"), M(0, 0, "-2")>>), S(<<M(3, 0, "1"), M(0, 1, "-1")>>), S(<<M(2, 0, "-1"), M(1, 1, "2"), M(0, 0, "1/2")>>),
       S(<<M(1, 2, "1"), M(1, 0, "-1"), M(0, 1, "1")>>), S(<<M(3, 1, "1"), M(0, 2, "-1")>>)}
Ivs == {<<"-1", "W", "1", "W">>, <<"0", "S", "2", "W">>, <<"-2", "W", "0", "S">>, <<"1", "W", "1", "W">>, <<"0", "W", "0", "I">>, <<"0", "I", "0", "I">>, <<"-1", "I", "-1", "S">>}
Rels == {"eq", "lt", "ge"}
Init == p \in Ps /\ rel \in Rels /\ box \in Ivs \X Ivs /\ phase = 0
Grid == {"-5/2", "-2", "-1", "-1/2", "0", "1/2", "1", "3/2", "2", "4"}
Pts == {<<x, y>> : x \in Grid, y \in Grid}
B == <<Abs(box[1]), Abs(box[2])>>
Inner == {a \in Pts : InBox(a, box)}
Sols == {a \in Inner : RelHolds(rel, PEval(2, p, a))}
RECURSIVE Lst(_)
Lst(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o Lst(X \ {x})
RECURSIVE WireL(_)
WireL(D) == IF D = {} THEN <<>> ELSE LET m == CHOOSE m \in D : TRUE IN <<<<m, p[m]>>>> \o WireL(D \ {m})
W == WireL(DOMAIN p)
HasV(v) == \E m \in DOMAIN p : m[v] > 0
Cmds == <<[op |-> "eval", kind |-> "mp", num |-> "q", p |-> W, box |-> box, pts |-> Lst(Inner), v |-> 1],
          [op |-> "eval", kind |-> "horner", num |-> "d", p |-> W, box |-> box, pts |-> Lst(Inner), v |-> 1]>>
        \o [i \in 1..4 |-> LET v == IF i <= 2 THEN 1 ELSE 2 IN
             [op |-> "contract", how |-> IF i % 2 = 0 \/ rel # "eq" THEN "con" ELSE "newton", p |-> W, rel |-> rel, box |-> box, v |-> v, pts |-> Lst(Sols),
              prop |-> FALSE, nice |-> i = 1, sub |-> TRUE]]
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<p, box, rel>>
        /\ Out => PrintT("HIST" \o ToJson(Cmds))
\* ---- the algorithms, on exact intervals ------------------------------------
Term(m, c) == IScale(c, IMul(IPow(B[1], m[1]), IPow(B[2], m[2])))
RECURSIVE Eval(_, _)
Eval(q, D) == IF D = {} THEN Pt("0") ELSE LET m == CHOOSE m \in D : TRUE IN IAdd(Term(m, q[m]), Eval(q, D \ {m}))
Ev(q) == Eval(q, DOMAIN q)
\* p = lead * x_v^k - rest
K(v) == PDegIn(p, v)
LeadOf(v) == PCoeffIn(p, v, K(v))
Rest(v) == PSub(PMul(LeadOf(v), PMono(IF v = 1 THEN <<K(v), 0>> ELSE <<0, K(v)>>, "1")), p)
H == CASE rel = "eq" -> Pt("0") [] rel = "lt" -> Mk("0", "I", "0", "S") [] OTHER -> Mk("0", "W", "0", "I")
Quot(v) == RelDivSet(IAdd(Ev(Rest(v)), H), Ev(LeadOf(v)))
InRoots(x, k, Z) == \E X \in Z : In(QPow(x, k), X)
Laws == (phase = 1 /\ ~Out) =>
  /\ \A a \in Inner : In(PEval(2, p, a), Ev(p))
  /\ \A v \in {1, 2} : HasV(v) => \A a \in Sols : InRoots(a[v], K(v), Quot(v))
=============================================================================
