-------------------------------- MODULE MC_Thom --------------------------------
(* Out = FALSE: for all pairs of small polynomials p, q, the query of q over   *)
(* the roots of p is the difference of sign variations of the remainder        *)
(* sequence of p and p' q (Sylvester); the signs of all derivatives tell the   *)
(* roots of p apart and order them (Thom).                                     *)
(* Out = TRUE: roots of p and of q, all comparisons between them, with         *)
(* numbers, after adding a number, and the signs of one at the other's.        *)
EXTENDS Thom, Json, TLC
CONSTANTS Out, NP, NQ
VARIABLES c, phase
Co == {"-1", "0", "1"}
P1 == {<<a, "1">> : a \in Co}
P2 == {<<a, b, "1">> : a \in Co, b \in Co}
P3 == {<<a, b, d, "1">> : a \in Co, b \in Co, d \in Co}
P4 == {<<a, b, d, "0", "-1">> : a \in Co, b \in Co, d \in Co}
Upto(n) == CASE n = 1 -> P1 [] n = 2 -> P1 \cup P2 [] n = 3 -> P1 \cup P2 \cup P3 [] n = 4 -> P1 \cup P2 \cup P3 \cup P4
Const1 == <<"-2">>
\* ---- laws ----------------------------------------------------------------------
LawQuery == LET p == c[1]  q == c[2]
                d == UMul(UDeriv(p), q)
                s == SturmFrom(<<p, d>>)
                R == Roots(p)
                P == {<<R[i], <<>>>> : i \in 1..Len(R)}
            IN  Query(P, Uni(1, q)) = VarAt(s, "-oo") - VarAt(s, "+oo")
Vec(p, X) == LET D == Derivs(Uni(2, p), 1, UDeg(p)) IN [i \in 1..(UDeg(p) + 1) |-> SgnPoly(At(D[i], <<XX>>), X)]
LawThom == LET p == c[1]  R == Roots(p) IN \A i, j \in 1..Len(R) : i < j =>
  LET a == Vec(p, R[i])  b == Vec(p, R[j])
      k == IMax({0} \cup {m \in 1..Len(a) : a[m] # b[m]})
  IN  k > 0 /\ k < Len(a) /\ a[k + 1] # 0 /\ (IF a[k + 1] = 1 THEN a[k] < b[k] ELSE a[k] > b[k])
\* The points named by a zero set make all its generators vanish.
LawPoints == LET e == [nv |-> 2, z |-> c[1], gs |-> <<<<c[2], <<"0", "1">>>>>>, cx |-> <<TRUE>>, mix |-> <<<<1, 2, <<<<<<1, 1>>, "1">>>>>>, <<2, 1, <<<<<<0, 0>>, "-1">>>>>>>>]
                 G == Gens(e)
             IN  \A x \in Points(e), i \in 1..2 : SgnPt(G[i], x) = 0
Laws == phase = 0 => LawQuery /\ LawThom /\ (Len(c[1]) < 4 => LawPoints)
\* ---- histories -----------------------------------------------------------------
W(u) == LET D == {i \in DOMAIN u : u[i] # "0"} IN [k \in 1..Cardinality(D) |-> LET i == CHOOSE j \in D : Cardinality({m \in D : m < j}) = k - 1 IN <<<<i - 1, 0>>, u[i]>>]
Full == <<"0", "I", "0", "I">>
RootsCmd(u) == [op |-> "roots", p |-> W(u), iv |-> Full]
Flat(s, n) == [k \in 1..(n * n) |-> s[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
Hist(p, q) == LET n == Len(Roots(p)) + Len(Roots(q)) IN
  <<RootsCmd(p), RootsCmd(q)>>
  \o Flat([i \in 1..n |-> [j \in 1..n |-> [op |-> "cmp", i |-> i - 1, j |-> j - 1]]], n)
  \o [i \in 1..n |-> [op |-> "sgn", i |-> i - 1, p |-> W(IF i <= Len(Roots(p)) THEN q ELSE p)]]
  \o [i \in 1..n |-> [op |-> "cmpq", i |-> i - 1, c |-> "1"]]
  \o [i \in 1..n |-> [op |-> "midq", i |-> i - 1, c |-> "0"]]
  \o [i \in 1..(IF n = 0 THEN 0 ELSE 1) |-> [op |-> "plus", i |-> 0, c |-> "1/2"]]
  \o [i \in 1..n |-> [op |-> "cmp", i |-> n, j |-> i - 1]]
Init == phase = 0 /\ c \in {<<p, q>> : p \in Upto(NP), q \in Upto(NQ)}
Next == /\ phase = 0 /\ phase' = 1 /\ c' = c
        /\ Out => PrintT("HIST" \o ToJson(Hist(c[1], c[2])))
=============================================================================
