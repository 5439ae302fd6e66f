------------------------------ MODULE PolyPure ------------------------------
(***************************************************************************)
(* Multivariate polynomials over the rationals.  A monomial over NV        *)
(* variables is its exponent sequence of length NV; a polynomial is the    *)
(* function from its monomials to their (non-zero) coefficients; the empty *)
(* function is the zero polynomial.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q

MMul(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MDivides(a, b) == \A i \in 1..Len(a) : a[i] <= b[i]          \* a divides b
MDiv(b, a) == [i \in 1..Len(a) |-> b[i] - a[i]]

Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE "0"

RECURSIVE QSumOver(_, _)
QSumOver(S, f) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(f[x], QSumOver(S \ {x}, f))

Strip(p) == [m \in {m \in DOMAIN p : p[m] # "0"} |-> p[m]]

PAdd(p, q) == Strip([m \in DOMAIN p \cup DOMAIN q |-> QAdd(Coef(p, m), Coef(q, m))])
PScale(c, p) == Strip([m \in DOMAIN p |-> QMul(c, p[m])])
PNeg(p) == PScale("-1", p)
PSub(p, q) == PAdd(p, PNeg(q))
PMul(p, q) ==
  LET Pairs == (DOMAIN p) \X (DOMAIN q)
      Prod  == [x \in Pairs |-> QMul(p[x[1]], q[x[2]])]
      Mons  == {MMul(x[1], x[2]) : x \in Pairs}
  IN  Strip([m \in Mons |-> QSumOver({x \in Pairs : MMul(x[1], x[2]) = m}, Prod)])

PConst(nv, c) == Strip([m \in {[i \in 1..nv |-> 0]} |-> c])
RECURSIVE PPow(_, _, _)
PPow(nv, p, n) == IF n = 0 THEN PConst(nv, "1") ELSE PMul(p, PPow(nv, p, n - 1))

\* Replace variable i by the polynomial q.
RECURSIVE PSumOver(_, _)
PSumOver(S, f) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN PAdd(f[x], PSumOver(S \ {x}, f))
PSubst(nv, p, i, q) ==
  PSumOver(DOMAIN p, [m \in DOMAIN p |-> PMul([x \in {[m EXCEPT ![i] = 0]} |-> p[m]], PPow(nv, q, m[i]))])
=============================================================================
