------------------------------- MODULE MC_Ran -------------------------------
(* Two roots of small polynomials whose enclosures are refined in any order:  *)
(* what the numbers are and how they compare never changes.  With Out, all    *)
(* pairs of polynomials as inputs for the implementation.                     *)
EXTENDS Ran, TLC, Json
CONSTANTS Out, Cs, D, Depth
VARIABLES c, x, y, k
Polys == UNION {{p \in [1..(d + 1) -> Cs] : p[d + 1] # "0"} : d \in 1..D}
Roots(p) == AllRoots(p)
Rel(i) == CASE i % 6 = 0 -> "eq" [] i % 6 = 1 -> "lt" [] i % 6 = 2 -> "le" [] i % 6 = 3 -> "ne" [] i % 6 = 4 -> "gt" [] i % 6 = 5 -> "ge"
Hist(p, q) ==
  LET n == Len(Roots(p)) + Len(Roots(q)) IN
  <<[op |-> "roots", p |-> p, iv |-> <<"0", "I", "0", "I">>, kind |-> "q"], [op |-> "roots", p |-> q, iv |-> <<"-1", "S", "2", "W">>, kind |-> "mp"],
    [op |-> "roots", p |-> q, iv |-> <<"0", "I", "0", "W">>, kind |-> "q"]>>
  \o [i \in 1..(n * n) |-> [op |-> IF i % 3 = 0 THEN "compare" ELSE "cmp", i |-> ((i - 1) \div n) + 1, j |-> ((i - 1) % n) + 1, rel |-> Rel(i + Len(p))]]
  \o [i \in 1..n |-> [op |-> "query", i |-> i]] \o [i \in 1..n |-> [op |-> "refine", i |-> i]]
  \o [i \in 1..n |-> [op |-> "sgnp", i |-> i, p |-> q]]
  \o [i \in 1..n |-> [op |-> "eval", m |-> <<<<<<2, 0>>, "1">>, <<<<1, 0>>, "-1">>>>, a |-> <<i, 0>>, refine |-> i % 2 = 0, kind |-> "eval"]]
Init == /\ c \in Polys \X Polys /\ k = 0
        /\ IF Out THEN x = Rat("0") /\ y = Rat("0")
           ELSE \E i \in DOMAIN Roots(c[1]), j \in DOMAIN Roots(c[2]) : x = Roots(c[1])[i] /\ y = Roots(c[2])[j]
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED c
        /\ IF Out THEN UNCHANGED <<x, y>> /\ PrintT("HIST" \o ToJson(Hist(c[1], c[2])))
           ELSE \/ x' = Half(x) /\ y' = y
                \/ y' = Half(y) /\ x' = x
                \/ ~IsRat(x) /\ y' = y /\ \E m \in {"0", "1/3"} : QLt(x.a, m) /\ QLt(m, x.b) /\ x' = Split(x, m)
Ok1(X, p) == /\ IsRat(X) \/ Valid(<<"i", X.p, X.a, X.b, "S", "S">>)
             /\ SgnPoly(p, X) = 0 /\ SgnPoly(UDeriv(UMul(p, p)), X) = 0
             /\ CmpC(X, Floor(X)) >= 0 /\ CmpC(X, QAdd(Floor(X), "1")) < 0 /\ Cmp(X, Neg(X)) = Sgn(X)
Keeps == Out \/ (Ok1(x, c[1]) /\ Ok1(y, c[2]) /\ Cmp(x, y) = -Cmp(y, x) /\ (Cmp(x, y) = 0) = Same(x, y))
Fixed == [][Out \/ (/\ Same(x, x') /\ Same(y, y') /\ Cmp(x', y') = Cmp(x, y) /\ Floor(x') = Floor(x) /\ Ceil(y') = Ceil(y)
                    /\ SgnPoly(c[2], x') = SgnPoly(c[2], x) /\ SgnPoly(c[1], y') = SgnPoly(c[1], y))]_<<c, x, y, k>>
=============================================================================
