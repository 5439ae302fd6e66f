-------------------------------- MODULE MC_Elem --------------------------------
(* Out = FALSE: the series satisfy the functional equations on a grid, and the *)
(* comparisons used for inverse functions agree with them.                     *)
(* Out = TRUE: every function on all intervals with ends on a grid.            *)
EXTENDS Elem, Json, TLC
CONSTANTS Out, N
VARIABLES c, phase
G == {QDiv(QOfInt(k), "2") : k \in -N..N}
Close(a, b) == LeV(a, b) /\ LeV(b, a)
LawExp(x, y) == Close(Exp(QAdd(x, y)), QMul(Exp(x), Exp(y)))
LawSin(x, y) == Close(Sin(QAdd(x, y)), QAdd(QMul(Sin(x), Cos(y)), QMul(Cos(x), Sin(y))))
LawCos(x, y) == Close(Cos(QAdd(x, y)), QSub(QMul(Cos(x), Cos(y)), QMul(Sin(x), Sin(y))))
LawOne(x) == Close(QAdd(QMul(Sin(x), Sin(x)), QMul(Cos(x), Cos(x))), "1") /\ Close(QMul(Exp(x), Exp(QNeg(x))), "1") /\ Close(Sin(PiLo), "0") /\ Close(Cos(PiHi), "-1")
Brackets(f, g, x) == LET v == Val(f, x)  d == "1/1000" IN AtMost(g, x, v) /\ AtLeast(g, x, v) /\ ~AtMost(g, QAdd(x, d), v) /\ ~AtLeast(g, QSub(x, d), v)
LawInv(x) == /\ Brackets("exp", "log", x) /\ Brackets("sinh", "asinh", x)
             /\ QLt("0", x) => Brackets("cosh", "acosh", x)
             /\ QLe(QAbs(x), "3/2") => Brackets("sin", "asin", x) /\ Brackets("tan", "atan", x)
             /\ QLe("1/2", x) /\ QLe(x, "3") => Brackets("cos", "acos", x)
             /\ QLe(QAbs(x), "2") => Brackets("tanh", "atanh", x)
Laws == phase = 0 /\ ~Out => LawExp(c[1], c[2]) /\ LawSin(c[1], c[2]) /\ LawCos(c[1], c[2]) /\ LawOne(c[1]) /\ LawInv(c[1])
T == {"S", "W"}
Ivls == {<<p[1], lt, p[2], ut>> : p \in {p \in G \X G : QLe(p[1], p[2])}, lt \in T, ut \in T} \cup {<<x, "I", x, ut>> : x \in G, ut \in T} \cup {<<x, lt, x, "I">> : x \in G, lt \in T} \cup {<<"0", "I", "0", "I">>}
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o List(S \ {x})
Hist(i) == [k \in DOMAIN i |-> [op |-> "el", fn |-> i[k], x |-> c[1]]]
Init == phase = 0 /\ c \in IF Out THEN {<<i, i>> : i \in {i \in Ivls : ~IsE(Abs(i))}} ELSE G \X G
Next == /\ phase = 0 /\ phase' = 1 /\ c' = c
        /\ Out => LET F == List({f \in Fns : Pre(f, Abs(c[1]))}) IN PrintT("HIST" \o ToJson(Hist(F)))
=============================================================================
