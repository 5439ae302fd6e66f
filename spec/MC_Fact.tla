------------------------------- MODULE MC_Fact -------------------------------
(* Laws of divisors on products of a few irreducible polynomials, and          *)
(* histories that build the products in all orders and take them apart again.  *)
EXTENDS Fact, TLC, Json
CONSTANTS Out, K
VARIABLES t, phase
Pool == <<<<<<<<1, 0>>, "1">>>>, <<<<<<0, 1>>, "-1">>, <<<<1, 0>>, "1">>>>, <<<<<<0, 1>>, "2">>, <<<<0, 0>>, "-3">>>>, <<<<<<2, 0>>, "1">>, <<<<0, 1>>, "1">>>>, <<<<<<0, 2>>, "1">>, <<<<2, 0>>, "1">>, <<<<0, 0>>, "1/2">>>>>>
Ps == 1..K
I(i) == PRead(Pool[i])
\* a product is given by the exponents of its factors
Small == {f \in [Ps -> 0..2] : \E i, j \in Ps : \A k \in Ps : f[k] = (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)} \cup {[k \in Ps |-> IF k = i THEN 1 ELSE 0] : i \in Ps}
RECURSIVE Of(_, _)
Of(f, i) == IF i > K THEN PConst(2, "1") ELSE PMul(PPow(2, I(i), f[i]), Of(f, i + 1))
Min(a, b) == IF a < b THEN a ELSE b
Init == t \in Small \X Small /\ phase = 0
A == Of(t[1], 1)
B == Of(t[2], 1)
G == Of([i \in Ps |-> Min(t[1][i], t[2][i])], 1)
L == PGQuo(PMul(A, B), G)
NewOf(d, i) == [op |-> "new", d |-> d, p |-> Pool[i], how |-> "poly"]
MulOf(a, b, d, ip) == [op |-> "bin", f |-> "mul", a |-> a, b |-> b, d |-> d, ip |-> ip]
RECURSIVE BuildF(_, _, _, _)
BuildF(f, d, i, first) == IF i > K THEN <<>>
  ELSE IF f[i] = 0 THEN BuildF(f, d, i + 1, first)
  ELSE IF first THEN <<NewOf(d, i)>> \o BuildF([f EXCEPT ![i] = @ - 1], d, i, FALSE)
  ELSE <<NewOf(4, i), MulOf(d, 4, d, TRUE)>> \o BuildF([f EXCEPT ![i] = @ - 1], d, i, FALSE)
RECURSIVE TermsOf(_, _)
TermsOf(p, ms) == IF ms = {} THEN <<>> ELSE LET m == CHOOSE m \in ms : TRUE IN <<<<m, p[m]>>>> \o TermsOf(p, ms \ {m})
\* the same product, from its expanded polynomial
Flat(d, p) == [op |-> "new", d |-> d, p |-> TermsOf(p, DOMAIN p), how |-> "poly"]
On(op, a, b, d) == [op |-> op, a |-> a, b |-> b, d |-> d]
Hist == BuildF(t[1], 1, 1, TRUE) \o BuildF(t[2], 2, 1, TRUE) \o
  <<[op |-> "cmp", a |-> 1, b |-> 2, c |-> "1"], On("cd", 1, 2, 3), On("cm", 1, 2, 3), [op |-> "gcd", a |-> 1, b |-> 2, d |-> 3, rest |-> TRUE], [op |-> "factor", a |-> 3], [op |-> "lazy", a |-> 1, b |-> 2],
    [op |-> "quo", a |-> 1, b |-> 3, d |-> 4, ip |-> FALSE], On("lcm", 1, 2, 3), [op |-> "factor", a |-> 3], [op |-> "factor", a |-> 1], [op |-> "factor", a |-> 2]>>
HistFlat == <<Flat(1, A), Flat(2, B), [op |-> "cmp", a |-> 1, b |-> 2, c |-> "1"]>> \o BuildF(t[2], 3, 1, TRUE) \o
  <<[op |-> "cmp", a |-> 2, b |-> 3, c |-> "1"], [op |-> "gcd", a |-> 1, b |-> 3, d |-> 4, rest |-> TRUE], [op |-> "factor", a |-> 1], [op |-> "factor", a |-> 3], On("lcm", 1, 2, 4), [op |-> "factor", a |-> 4],
    [op |-> "cmp", a |-> 2, b |-> 3, c |-> "1"], MulOf(1, 3, 4, FALSE), [op |-> "lazy", a |-> 4, b |-> 2], [op |-> "gcd", a |-> 4, b |-> 2, d |-> 3, rest |-> FALSE]>>
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED t
        /\ Out => (PrintT("HIST" \o ToJson(Hist)) /\ PrintT("HIST" \o ToJson(HistFlat)))
Laws == (phase = 1 /\ ~Out) =>
  /\ PGIsGcd(2, G, A, B) /\ PGIsGcd(2, PScale("-2/3", G), A, B)
  /\ PGIsLcm(2, L, A, B) /\ PMul(G, L) = PMul(A, B)
  /\ PGCoprime(2, A, B) = PIsConst(G)
  /\ \A i \in Ps : (PGIsGcd(2, PMul(G, I(i)), A, B) = FALSE) /\ (PGIsLcm(2, PMul(L, I(i)), A, B) = FALSE)
  /\ \A i \in Ps : (t[1][i] > 0 /\ t[2][i] > 0) => PGIsGcd(2, PGQuo(G, I(i)), A, B) = FALSE
  /\ PGDivides(A, B) = (\A i \in Ps : t[1][i] <= t[2][i])
==============================================================================
