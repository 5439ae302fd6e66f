------------------------------- MODULE MC_Root -------------------------------
(* Root counting on products of factors whose roots are known, and all        *)
(* polynomials with small coefficients as inputs for the library.             *)
EXTENDS Root, TLC, Json
CONSTANTS Out, Deg
VARIABLES p, m, phase
Roots == <<"-2", "-1", "0", "1/2", "3">>
Lin(c) == <<QNeg(c), "1">>
Q1 == <<"1", "0", "1">>                 \* no real root
Q2 == <<"-2", "0", "1">>                \* two irrational roots
\* m: multiplicities of Roots, of Q1 and of Q2
RECURSIVE Build(_, _)
Build(k, i) == IF i > 5 THEN UMul(UPow(Q1, k[6]), UPow(Q2, k[7])) ELSE UMul(UPow(Lin(Roots[i]), k[i]), Build(k, i + 1))
RECURSIVE Sum(_, _)
Sum(k, i) == IF i > Len(k) THEN 0 ELSE k[i] + Sum(k, i + 1)
Mults == {k \in [1..7 -> 0..3] : Sum(k, 1) <= Deg}
Places == {"-oo", "-2", "-3/2", "0", "1/2", "7/5", "10/7", "3", "+oo"}
PLt(a, b) == a # b /\ (a = "-oo" \/ b = "+oo" \/ (a # "+oo" /\ b # "-oo" /\ QLt(a, b)))
\* sqrt 2 lies between 7/5 and 10/7
Inside(i, a, b) == IF i = 1 THEN PLt(a, "-7/5") /\ PLt("-10/7", b) /\ (a = "-3/2" \/ PLt(a, "-10/7")) /\ (b = "-oo" => FALSE)
                   ELSE (a = "7/5" \/ PLt(a, "7/5")) /\ (b = "10/7" \/ PLt("10/7", b))
B2I(x) == IF x THEN 1 ELSE 0
RECURSIVE Known(_, _, _, _, _)
Known(k, a, b, mult, i) == IF i > 5 THEN (IF mult THEN k[7] ELSE B2I(k[7] > 0)) * (B2I(Inside(1, a, b)) + B2I(Inside(2, a, b)))
                           ELSE B2I(PLt(a, Roots[i]) /\ PLt(Roots[i], b)) * (IF mult THEN k[i] ELSE B2I(k[i] > 0)) + Known(k, a, b, mult, i + 1)
Small == {UTrim(c) : c \in [1..4 -> {"-2", "-1", "0", "1", "3"}]}
Init == IF Out THEN p \in Small \ {<<>>} /\ m = <<>> /\ phase = 0
               ELSE m \in Mults /\ p = <<>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ m' = m /\ (IF Out THEN p' = p /\ PrintT("HIST" \o ToJson(p)) ELSE p' = UScale("-3/2", Build(m, 1)))
RECURSIVE Parts(_, _)
Parts(k, i) == IF i > 5 THEN <<"1">> ELSE UMul(UPow(Lin(Roots[i]), B2I(k[i] > 0)), Parts(k, i + 1))
Laws == (phase = 1 /\ ~Out) =>
  /\ \A a, b \in Places : PLt(a, b) => CountOpen(p, a, b) = Known(m, a, b, FALSE, 1) /\ CountMult(p, a, b) = Known(m, a, b, TRUE, 1)
  /\ UAssoc(USqFree(p), UMul(Parts(m, 1), UMul(UPow(Q1, B2I(m[6] > 0)), UPow(Q2, B2I(m[7] > 0)))))
  /\ \A i \in 1..5 : UMult(p, Roots[i]) = m[i]
  /\ UIsSqFree(p) <=> \A i \in 1..7 : m[i] <= 1
=============================================================================
