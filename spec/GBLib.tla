-------------------------------- MODULE GBLib --------------------------------
(* Normal forms, Buchberger's algorithm and the (unique) reduced Groebner     *)
(* basis of an ideal with respect to the library's graded order.              *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder
SPolyM(p, q) == LET m == LeadMon(p)  n == LeadMon(q)  l == MLcm(m, n)
                IN  PSub(PMul(PMono(MDiv(l, m), q[n]), p), PMul(PMono(MDiv(l, n), p[m]), q))
Monic(p) == PScale(QDiv("1", LeadCoef(p)), p)
\* Normal form of p modulo the list G; r collects the irreducible terms.
RECURSIVE NFFrom(_, _, _)
NFFrom(p, G, r) ==
  IF PIsZero(p) THEN r
  ELSE LET m == LeadMon(p)
           D == {i \in 1..Len(G) : MDivides(LeadMon(G[i]), m)}
       IN  IF D = {} THEN NFFrom(PSub(p, PMono(m, p[m])), G, PAdd(r, PMono(m, p[m])))
           ELSE LET d == G[CHOOSE i \in D : \A j \in D : i <= j]
                    t == PMono(MDiv(m, LeadMon(d)), QDiv(p[m], LeadCoef(d)))
                IN  NFFrom(PSub(p, PMul(t, d)), G, r)
NF(p, G) == NFFrom(p, G, PZero)
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ListOf(S \ {x})
\* Buchberger: G a list of non-zero polynomials, P the pairs still to look at, smallest lcm first.
PairDeg(G, p) == MDeg(MLcm(LeadMon(G[p[1]]), LeadMon(G[p[2]])))
Coprime(G, p) == MVars(LeadMon(G[p[1]])) \cap MVars(LeadMon(G[p[2]])) = {}
RECURSIVE Buch(_, _)
Buch(G, P) ==
  IF P = {} THEN G
  ELSE LET p == CHOOSE x \in P : \A y \in P : PairDeg(G, x) <= PairDeg(G, y)
           s == NF(SPolyM(G[p[1]], G[p[2]]), G)
       IN  IF PIsZero(s) THEN Buch(G, P \ {p})
           ELSE IF PIsConst(s) THEN <<Monic(s)>>
           ELSE LET H == Append(G, Monic(s)) IN
                Buch(H, (P \ {p}) \cup {q \in {<<i, Len(H)>> : i \in 1..Len(G)} : ~Coprime(H, q)})
Groebner(F) ==
  LET N == {Monic(f) : f \in {g \in F : ~PIsZero(g)}} IN
  IF \E f \in N : PIsConst(f) THEN <<CHOOSE f \in N : PIsConst(f)>>
  ELSE LET G == ListOf(N) IN Buch(G, {q \in {<<i, j>> : i \in 1..Len(G), j \in 1..Len(G)} : q[1] < q[2] /\ ~Coprime(G, q)})
\* The reduced basis.
Minimal(G) == {i \in 1..Len(G) : \A j \in 1..Len(G) : j # i => ~(MDivides(LeadMon(G[j]), LeadMon(G[i])) /\ (LeadMon(G[j]) # LeadMon(G[i]) \/ j < i))}
Reduced(G) == LET M == {G[i] : i \in Minimal(G)} IN {Monic(NF(g, ListOf(M \ {g}))) : g \in M}
RefGB(F) == Reduced(Groebner(F))
InIdeal(p, B) == PIsZero(NF(p, ListOf(B)))
\* B is a reduced Groebner basis (of the ideal it generates).
IsReducedGB(B) ==
  LET L == ListOf(B) IN
  /\ \A b \in B : ~PIsZero(b) /\ LeadCoef(b) = "1" /\ \A c \in B \ {b} : \A m \in DOMAIN b : ~MDivides(LeadMon(c), m)
  /\ \A b \in B, c \in B : b = c \/ PIsZero(NF(SPolyM(b, c), L))
Zero(nv, F, a) == \A f \in F : PEval(nv, f, a) = "0"
=============================================================================
