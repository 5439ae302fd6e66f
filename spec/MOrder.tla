------------------------------- MODULE MOrder -------------------------------
(***************************************************************************)
(* The default (graded) monomial order: by total degree, ties broken at    *)
(* the first variable (in variable order) whose exponents differ: the      *)
(* larger exponent there makes the smaller monomial.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Poly

MLess(a, b) ==
  \/ MDeg(a) < MDeg(b)
  \/ /\ MDeg(a) = MDeg(b)
     /\ \E i \in 1..Len(a) : a[i] > b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
MMaxOf(S) == CHOOSE m \in S : \A x \in S : x = m \/ MLess(x, m)
MMinOf(S) == CHOOSE m \in S : \A x \in S : x = m \/ MLess(m, x)
LeadMon(p) == MMaxOf(DOMAIN p)
LeadCoef(p) == p[LeadMon(p)]
LeadTerm(p) == <<LeadMon(p), LeadCoef(p)>>
TailOf(p) == LET l == LeadMon(p) IN [m \in DOMAIN p \ {l} |-> p[m]]
\* s lists monomials in strictly increasing order.
MSorted(s) == \A i \in 1..(Len(s) - 1) : MLess(s[i][1], s[i + 1][1])
=============================================================================
