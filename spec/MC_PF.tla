-------------------------------- MODULE MC_PF -------------------------------
(* Laws of the polynomial functions, for all polynomials of a small space.  *)
EXTENDS PF, TLC
CONSTANTS NV, What
VARIABLES a, b, c, phase
Mons == {m \in [1..NV -> 0..2] : MDeg(m) <= 2}
Cs == {"-1", "2"}
\* At most two terms.
Polys == {PZero} \cup {PMono(m, x) : m \in Mons, x \in Cs}
         \cup {PAdd(PMono(mm[1], x), PMono(mm[2], y)) : mm \in {q \in Mons \X Mons : MLess(q[1], q[2])}, x \in {"1"}, y \in {"-1", "2"}}
Small == {p \in Polys : PDeg(p) <= 1}
Init == a \in Polys /\ b = PZero /\ c = PZero /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1 /\ a' = a
        /\ b' \in (IF What = "subst" THEN Small ELSE Polys) /\ c' \in Small
V == 1..NV
SubstLaws == phase = 1 =>
  /\ \A v \in V :
       \* a homomorphism
       /\ PSubst(NV, PAdd(a, b), v, c) = PAdd(PSubst(NV, a, v, c), PSubst(NV, b, v, c))
       /\ PSubst(NV, PMul(a, b), v, c) = PMul(PSubst(NV, a, v, c), PSubst(NV, b, v, c))
       /\ PSubst(NV, a, v, PVar(NV, v)) = a
       /\ PSubst(NV, a, v, c) = SubstAll(NV, a, [i \in V |-> IF i = v THEN c ELSE PVar(NV, i)])
       \* Leibniz rule and linearity
       /\ PDeriv(PMul(a, b), v) = PAdd(PMul(PDeriv(a, v), b), PMul(a, PDeriv(b, v)))
       /\ PDeriv(PAdd(a, b), v) = PAdd(PDeriv(a, v), PDeriv(b, v))
       /\ \A w \in V : PDeriv(PDeriv(a, v), w) = PDeriv(PDeriv(a, w), v)
       \* the univariate view determines the polynomial
       /\ LET u == View(a, v) IN
            a = (IF u = <<>> THEN PZero ELSE
                 LET S[i \in 1..Len(u)] == PAdd(PTimesVarPow(u[i], v, i - 1), IF i = 1 THEN PZero ELSE S[i - 1]) IN S[Len(u)])
  \* swapping two variables twice is the identity, simultaneously but not one after the other
  /\ LET s == [i \in V |-> PVar(NV, NV + 1 - i)] IN SubstAll(NV, SubstAll(NV, a, s), s) = a
DivLaws == phase = 1 =>
  /\ ~PIsZero(b) =>
       LET d == DivRem(a, b) IN
       /\ a = PAdd(PMul(d[1], b), d[2])
       /\ \A m \in DOMAIN d[2] : ~MDivides(LeadMon(b), m)
       /\ DivRem(PMul(a, b), b) = <<a, PZero>>
       /\ \A v \in V : ~PIsZero(a) =>
            LET r == Prem(a, b, v)  k == PDegIn(a, v) - PDegIn(b, v) + 1
                lb == PCoeffIn(b, v, PDegIn(b, v)) IN
            /\ PIsZero(r) \/ PDegIn(r, v) < PDegIn(b, v)
            /\ PDegIn(b, v) = 0 => PIsZero(r)
            \* vanishes on multiples
            /\ PIsZero(Prem(PMul(a, b), b, v))
  /\ (~PIsZero(a) /\ ~PIsZero(b)) =>
       LET s == SPoly(a, b)  l == MLcm(LeadMon(a), LeadMon(b)) IN
       /\ \A m \in DOMAIN s : MLess(m, l)
       /\ SPoly(b, a) = PNeg(s)
  /\ ~PIsZero(a) =>
       LET p == PScale(CoprimeFactor(a), a) IN
       /\ \A x \in Coefs(p) : QIsInt(x)
       /\ GcdNum(Coefs(p)) = "1" /\ QSgn(p[LeadMon(p)]) = 1
       /\ PScale(CoprimeFactor(PScale("-6/5", a)), PScale("-6/5", a)) = p
=============================================================================
