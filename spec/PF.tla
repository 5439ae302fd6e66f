--------------------------------- MODULE PF ---------------------------------
(***************************************************************************)
(* Functions on polynomials held in registers: substitution, evaluation,   *)
(* derivatives, univariate views, division with remainder, pseudo          *)
(* remainders, S-polynomials and normal forms.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder

Begin(e) == [nv |-> e.nv, regs |-> [i \in 1..e.k |-> PZero]]
Throws(st, e) == FALSE

RECURSIVE SumSet(_, _)
\* Sum of f(m) over a set of monomials.
SumSet(f, S) == IF S = {} THEN PZero ELSE LET m == CHOOSE x \in S : TRUE IN PAdd(f[m], SumSet(f, S \ {m}))

\* Simultaneous substitution: s gives a polynomial for every variable.
RECURSIVE ImageFrom(_, _, _, _)
ImageFrom(nv, m, s, i) == IF i > nv THEN PConst(nv, "1") ELSE PMul(PPow(nv, s[i], m[i]), ImageFrom(nv, m, s, i + 1))
SubstAll(nv, p, s) == SumSet([m \in DOMAIN p |-> PScale(p[m], ImageFrom(nv, m, s, 1))], DOMAIN p)
\* The substitution that a list of <<variable, x>> describes, with x turned into a polynomial by F.
Subst(nv, l, F(_)) == [i \in 1..nv |-> LET J == {j \in 1..Len(l) : l[j][1] = i}
                                       IN  IF J = {} THEN PVar(nv, i) ELSE F(l[CHOOSE j \in J : TRUE][2])]

RECURSIVE DerivN(_, _, _)
DerivN(p, v, n) == IF n = 0 THEN p ELSE DerivN(PDeriv(p, v), v, n - 1)
\* Coefficients in variable v, lowest first, without leading zeros.
View(p, v) == IF PIsZero(p) THEN <<>> ELSE [i \in 1..(PDegIn(p, v) + 1) |-> PCoeffIn(p, v, i - 1)]
\* A list of wire polynomials is the coefficient list u.
ViewIs(nv, s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : PIs(nv, s[i], u[i])

\* Division by one divisor with respect to the monomial order: <<quotient, remainder>>.
RECURSIVE DivAlg(_, _, _, _)
DivAlg(p, d, q, r) ==
  IF PIsZero(p) THEN <<q, r>>
  ELSE LET m == LeadMon(p)  n == LeadMon(d) IN
       IF MDivides(n, m)
         THEN LET t == PMono(MDiv(m, n), QDiv(p[m], d[n])) IN DivAlg(PSub(p, PMul(t, d)), d, PAdd(q, t), r)
         ELSE LET t == PMono(m, p[m]) IN DivAlg(PSub(p, t), d, q, PAdd(r, t))
DivRem(p, d) == DivAlg(p, d, PZero, PZero)
Divides(d, p) == PIsZero(DivRem(p, d)[2])

\* Pseudo remainder of a by b in v: lc(b)^(deg a - deg b + 1) a reduced by b.
RECURSIVE PremStep(_, _, _, _)
PremStep(r, b, v, k) ==
  IF k < 0 THEN r
  ELSE LET n == PDegIn(b, v)
           lb == PCoeffIn(b, v, n)
           lr == PCoeffIn(r, v, n + k)
       IN  PremStep(PSub(PMul(lb, r), PMul(lr, PTimesVarPow(b, v, k))), b, v, k - 1)
Prem(a, b, v) == IF PIsZero(a) \/ PDegIn(a, v) < PDegIn(b, v) THEN a ELSE PremStep(a, b, v, PDegIn(a, v) - PDegIn(b, v))

SPoly(p, q) == LET m == LeadMon(p)  n == LeadMon(q)  l == MLcm(m, n)
               IN  PSub(PMul(PMono(MDiv(l, m), q[n]), p), PMul(PMono(MDiv(l, n), p[m]), q))

\* gcd of the numerators and lcm of the denominators of a set of coefficients.
RECURSIVE GcdNum(_), LcmDen(_)
GcdNum(S) == IF S = {} THEN "0" ELSE LET x == CHOOSE y \in S : TRUE IN ZGcd(QAbs(QNum(x)), GcdNum(S \ {x}))
LcmDen(S) == IF S = {} THEN "1" ELSE LET x == CHOOSE y \in S : TRUE IN ZLcm(QDen(x), LcmDen(S \ {x}))
Coefs(p) == {p[m] : m \in DOMAIN p}
CoprimeAbs(S) == QDiv(LcmDen(S), GcdNum(S))
SignOf(p) == IF QSgn(p[LeadMon(p)]) < 0 THEN "-1" ELSE "1"
CoprimeFactor(p) == QMul(SignOf(p), CoprimeAbs(Coefs(p)))

Mutators == {"lit", "bin", "subst", "substin", "substm", "substn", "substt", "deriv",
             "slash", "quot", "rem", "divc", "divu", "norm", "spoly", "prem"}
Ring(f, p, q) == CASE f = "add" -> PAdd(p, q) [] f = "sub" -> PSub(p, q) [] f = "mul" -> PMul(p, q)
Target(c) == IF c.op = "substin" THEN c.a ELSE c.d
Value(st, c) ==
  LET R == st.regs  nv == st.nv IN
  CASE c.op = "lit" -> PSumList(c.p)
    [] c.op = "bin" -> Ring(c.f, R[c.a], R[c.b])
    [] c.op \in {"subst", "substin"} -> PSubst(nv, R[c.a], c.v, R[c.b])
    [] c.op = "substm" -> LET F(x) == R[x] IN SubstAll(nv, R[c.a], Subst(nv, c.m, F))
    [] c.op = "substn" -> LET F(x) == PConst(nv, x) IN SubstAll(nv, R[c.a], Subst(nv, c.m, F))
    [] c.op = "substt" -> LET F(x) == PMono(x[1], x[2]) IN SubstAll(nv, R[c.a], Subst(nv, c.m, F))
    [] c.op = "deriv" -> DerivN(R[c.a], c.v, c.n)
    [] c.op = "slash" -> DivRem(R[c.a], R[c.b])[1]
    [] c.op = "quot" -> DivRem(R[c.a], R[c.b])[1]
    [] c.op = "rem" -> DivRem(R[c.a], R[c.b])[2]
    [] c.op = "divc" -> PScale(QDiv("1", c.c), R[c.a])
    [] c.op = "divu" -> PScale(QDiv("1", QOfInt(c.n)), R[c.a])
    [] c.op = "norm" -> IF PIsZero(R[c.a]) THEN R[c.a] ELSE PScale(QDiv("1", R[c.a][LeadMon(R[c.a])]), R[c.a])
    [] c.op = "spoly" -> SPoly(R[c.a], R[c.b])
    [] c.op = "prem" -> Prem(R[c.a], R[c.b], c.v)
\* Commands are issued only where they are defined.
Pre(st, c) ==
  LET R == st.regs IN
  CASE c.op \in {"quot", "rem", "try", "utry"} -> ~PIsZero(R[c.b])
    [] c.op = "prem" -> ~PIsZero(R[c.b]) /\ ~PIsZero(R[c.a])
    [] c.op = "slash" -> ~PIsZero(R[c.b]) /\ Divides(R[c.b], R[c.a])
    [] c.op = "spoly" -> \A p \in {R[c.a], R[c.b]} : ~PIsZero(p) /\ p[LeadMon(p)] = "1"
    [] c.op = "coprime" -> ~PIsZero(R[c.a])
    [] c.op = "uni1" -> Cardinality(PVars(R[c.a])) = 1
    [] c.op \in {"usubst", "ueval"} -> c.w \notin PVars(R[c.b])
    [] OTHER -> TRUE

Canonical(nv, s, p) ==
  /\ PIs(nv, s, p)
  /\ s # <<>> => s[Len(s)][1] = LeadMon(p)
  /\ (MOne(nv) \in DOMAIN p) => s[1][1] = MOne(nv)

TermIs(r, m, c) == IF c = "0" THEN r[2] = "0" ELSE r = <<m, c>>
NumSubst(nv, c) == LET F(x) == PConst(nv, x) IN Subst(nv, c.m, F)
\* A term denotes p (zero terms may carry any monomial).
TermIsPoly(r, p) == IF PIsZero(p) THEN r[2] = "0" ELSE PMono(r[1], r[2]) = p
CoeffsIs(nv, s, p, v, ks) == /\ {s[i][1] : i \in 1..Len(s)} = ks /\ Len(s) = Cardinality(ks)
                             /\ \A i \in 1..Len(s) : PIs(nv, s[i][2], PCoeffIn(p, v, s[i][1]))
Exps(p, v) == {m[v] : m \in DOMAIN p}
Occ(p, v) == Cardinality({m \in DOMAIN p : m[v] > 0})
MinOr0(S) == IF S = {} THEN 0 ELSE IMin(S)
InfoOk(st, e) ==
  LET p == st.regs[e.a]  r == e.r  nv == st.nv  pos == Exps(p, e.v) \ {0} IN
  /\ r.max = PDegIn(p, e.v) /\ r.max2 = r.max
  /\ r.min = MinOr0(pos) /\ r.min2 = r.min
  /\ r.occ = Occ(p, e.v) /\ r.occ2 = r.occ
  /\ CoeffsIs(nv, r.coeffs, p, e.v, Exps(p, e.v))
  /\ {r.all[i].v : i \in 1..Len(r.all)} = PVars(p) /\ Len(r.all) = Cardinality(PVars(p))
  /\ \A i \in 1..Len(r.all) : LET x == r.all[i] IN
       /\ x.max = PDegIn(p, x.v) /\ x.min = MinOr0(Exps(p, x.v) \ {0}) /\ x.occ = Occ(p, x.v)
       /\ CoeffsIs(nv, x.coeffs, p, x.v, Exps(p, x.v) \ {0})

RECURSIVE FallFact(_, _)
FallFact(n, k) == IF k = 0 THEN "1" ELSE QMul(QOfInt(n), FallFact(n - 1, k - 1))
TDerivOk(nv, e) ==
  LET m == e.x[1] IN
  IF e.n = 0 THEN TermIs(e.r.t, m, e.x[2]) /\ e.r.f = "1" /\ e.r.m = m
  ELSE IF m[e.v] < e.n THEN e.r.t[2] = "0" /\ e.r.f = "0"
  ELSE LET f == FallFact(m[e.v], e.n)  x == [m EXCEPT ![e.v] = @ - e.n] IN
       /\ TermIs(e.r.t, x, QMul(f, e.x[2])) /\ (QLt(f, "18446744073709551616") => e.r.f = f) /\ e.r.m = x

ViewOk(st, e) ==
  LET R == st.regs  nv == st.nv  r == e.r IN
  CASE e.op = "tsubst" -> TermIsPoly(r.t, SubstAll(nv, PMono(e.x[1], e.x[2]), NumSubst(nv, e)))
    [] e.op = "eval" -> r = PConstVal(SubstAll(nv, R[e.a], NumSubst(nv, e)))
    [] e.op = "teval" -> /\ r.t = PConstVal(SubstAll(nv, PMono(e.x[1], e.x[2]), NumSubst(nv, e)))
                         /\ ("m" \in DOMAIN r) => r.m = PConstVal(SubstAll(nv, PMono(e.x[1], "1"), NumSubst(nv, e)))
    [] e.op = "tderiv" -> TDerivOk(nv, e)
    [] e.op = "uni" -> /\ ViewIs(nv, r.u, View(R[e.a], e.v)) /\ Canonical(nv, r.back, R[e.a]) /\ r.zero = PIsZero(R[e.a])
                       /\ r.tdeg = PDeg(R[e.a])
    [] e.op = "uni1" -> /\ {r.v} = PVars(R[e.a]) /\ Canonical(nv, r.back, R[e.a])
                        /\ LET u == View(R[e.a], r.v) IN Len(r.u) = Len(u) /\ \A i \in 1..Len(u) : PConst(nv, r.u[i]) = u[i]
    [] e.op = "usubst" -> LET p == PSubst(nv, R[e.a], e.v, R[e.b]) IN ViewIs(nv, r.x, View(p, e.w)) /\ ViewIs(nv, r.y, View(p, e.w))
    [] e.op = "uderiv" -> ViewIs(nv, r, View(DerivN(R[e.a], e.v, e.n), e.w))
    [] e.op = "ueval" -> PIs(nv, r, PSubst(nv, R[e.a], e.w, R[e.b]))
    [] e.op = "info" -> InfoOk(st, e)
    [] e.op = "degs" -> /\ r.tdeg = PDeg(R[e.a]) /\ r.const = PIsConst(R[e.a]) /\ r.zero = PIsZero(R[e.a])
                        /\ r.one = (R[e.a] = PConst(nv, "1"))
                        /\ r.linear = (PIsZero(R[e.a]) \/ PDeg(R[e.a]) = 1)
    [] e.op = "try" -> LET d == DivRem(R[e.a], R[e.b]) IN
                       /\ r.ok = PIsZero(d[2])
                       /\ IF r.ok THEN Canonical(nv, r.q, d[1]) ELSE PIs(nv, r.q, PConst(nv, "7"))
    [] e.op = "utry" -> LET d == DivRem(R[e.a], R[e.b]) IN /\ r.ok = PIsZero(d[2]) /\ r.ok => ViewIs(nv, r.q, View(d[1], e.v))
    [] e.op = "coprime" ->
         LET p == R[e.a]  f == CoprimeFactor(p)  S == Coefs(p) IN
         /\ r.f = f /\ Canonical(nv, r.p, PScale(f, p)) /\ Canonical(nv, r.s, PScale(QAbs(f), p))
         /\ r.cont = QDiv(GcdNum(S), LcmDen(S)) /\ r.den = LcmDen(S)
         /\ ("w" \in DOMAIN r) => r.w = QMul(SignOf(p), CoprimeAbs({p[m] : m \in DOMAIN p \ {MOne(nv)}}))
    [] e.op = "sqrt" -> /\ r.ok => PMul(PRead(r.q), PRead(r.q)) = R[e.a] /\ PWellFormed(nv, r.q)
                        /\ PIsZero(R[e.a]) => r.ok
                        /\ e.single => r.ok
    [] e.op = "tdivide" -> /\ TermIs(r.c, e.x[1], QDiv(e.x[2], e.c)) /\ r.k1 /\ TermIs(r.q1, e.x[1], QDiv(e.x[2], e.c))
                           /\ r.k2 = (e.x[1][e.v] > 0) /\ r.k2 => TermIs(r.q2, MDiv(e.x[1], MVar(nv, e.v)), e.x[2])
    [] e.op = "dump" -> \A i \in 1..Len(R) : Canonical(nv, r[i], R[i])

\* Commands outside of their domain are skipped, and only those.
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e)
                  ELSE Pre(st, e) /\ (IF e.op \in Mutators THEN Canonical(st.nv, e.r, Value(st, e)) ELSE ViewOk(st, e))
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF e.op \in Mutators THEN [st EXCEPT !.regs[Target(e)] = Value(st, e)]
  ELSE IF e.op = "try" /\ e.r.ok THEN [st EXCEPT !.regs[e.d] = DivRem(st.regs[e.a], st.regs[e.b])[1]]
  ELSE st
=============================================================================
