--------------------------------- MODULE UP ---------------------------------
(***************************************************************************)
(* A register machine over univariate polynomials in the variable x with   *)
(* coefficients from the integers ("Z"), the rationals ("Q") or the        *)
(* rational polynomials in the other variables ("P").  A register holds    *)
(* the polynomial it denotes; the coefficient list (lowest first, no       *)
(* leading zero) is the view of that polynomial in x.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder
F == INSTANCE PF

Begin(e) == [nv |-> e.nv, x |-> e.x, ring |-> e.ring, regs |-> [i \in 1..e.k |-> PZero], ord |-> {}]
Throws(st, e) == FALSE

\* A coefficient in wire form as polynomial.
Co(st, c) == IF st.ring = "P" THEN PSumList(c) ELSE PConst(st.nv, c)
\* The wire coefficient c is the polynomial p.
CoIs(st, c, p) == IF st.ring = "P" THEN PIs(st.nv, c, p) ELSE PConst(st.nv, c) = p
RECURSIVE FromList(_, _, _)
FromList(st, l, i) == IF i > Len(l) THEN PZero
                      ELSE PAdd(PTimesVarPow(Co(st, l[i]), st.x, i - 1), FromList(st, l, i + 1))
\* The wire list l is exactly the view of p in x.
Is(st, l, p) == LET u == F!View(p, st.x) IN Len(l) = Len(u) /\ \A i \in 1..Len(l) : CoIs(st, l[i], u[i])
Deg(st, p) == PDegIn(p, st.x)
Lc(st, p) == PCoeffIn(p, st.x, Deg(st, p))
Tc(st, p) == PCoeffIn(p, st.x, 0)
ConstP(st, p) == PDegIn(p, st.x) = 0       \* constant in the main variable
Num(p) == PConstVal(p)

\* Division with remainder over the rationals.
RECURSIVE DivQ(_, _, _, _)
DivQ(st, r, b, q) ==
  IF PIsZero(r) \/ Deg(st, r) < Deg(st, b) THEN <<q, r>>
  ELSE LET t == PTimesVarPow(PConst(st.nv, QDiv(Num(Lc(st, r)), Num(Lc(st, b)))), st.x, Deg(st, r) - Deg(st, b))
       IN  DivQ(st, PSub(r, PMul(t, b)), b, PAdd(q, t))
DivRemQ(st, a, b) == DivQ(st, a, b, PZero)
Monic(st, p) == IF PIsZero(p) THEN p ELSE PScale(QDiv("1", Num(Lc(st, p))), p)
RECURSIVE GcdQ(_, _, _)
GcdQ(st, a, b) == IF PIsZero(b) THEN Monic(st, a) ELSE GcdQ(st, b, DivRemQ(st, a, b)[2])

\* Leading coefficient's sign decides the unit over Z and P, the coefficient itself over Q.
Unit(st, p) == IF st.ring = "Q" THEN Num(Lc(st, p))
               ELSE LET l == Lc(st, p) IN IF QSgn(l[LeadMon(l)]) > 0 THEN "1" ELSE "-1"
Mirror(st, p) == PSubst(st.nv, p, st.x, PScale("-1", PVar(st.nv, st.x)))
RECURSIVE RevFrom(_, _, _, _)
RevFrom(st, u, i, n) == IF i > n THEN PZero ELSE PAdd(PTimesVarPow(u[i], st.x, n - i), RevFrom(st, u, i + 1, n))
Rev(st, p) == LET u == F!View(p, st.x) IN RevFrom(st, u, 1, Len(u))
Map(p, G(_)) == LET q == [m \in DOMAIN p |-> G(p[m])] IN [m \in {m \in DOMAIN p : q[m] # "0"} |-> q[m]]

Ring(f, p, q) == CASE f = "add" -> PAdd(p, q) [] f = "sub" -> PSub(p, q) [] f = "mul" -> PMul(p, q)
Mutators == {"lit", "bin", "inp", "inpc", "binc", "mulv", "neg", "copy", "move", "pow", "deriv", "derivv", "negvar", "rev", "trunc",
             "normal", "mod", "divc", "muln", "prem", "gcd"}
Target(c) == IF c.op \in {"inp", "inpc", "trunc", "mod"} THEN c.a ELSE c.d
Value(st, c) ==
  LET R == st.regs  nv == st.nv IN
  CASE c.op = "lit" -> FromList(st, c.p, 1)
    [] c.op \in {"bin", "inp"} -> Ring(c.f, R[c.a], R[c.b])
    [] c.op = "inpc" -> Ring(c.f, R[c.a], Co(st, c.c))
    [] c.op = "binc" -> IF c.side = "l" THEN Ring(c.f, Co(st, c.c), R[c.a]) ELSE Ring(c.f, R[c.a], Co(st, c.c))
    [] c.op = "mulv" -> PMul(R[c.a], PVar(nv, c.v))
    [] c.op = "neg" -> PNeg(R[c.a])
    [] c.op \in {"copy", "move"} -> R[c.a]
    [] c.op = "pow" -> PPow(nv, R[c.a], c.n)
    [] c.op = "deriv" -> F!DerivN(R[c.a], st.x, c.n)
    [] c.op = "derivv" -> F!DerivN(R[c.a], c.v, c.n)
    [] c.op = "negvar" -> Mirror(st, R[c.a])
    [] c.op = "rev" -> Rev(st, R[c.a])
    [] c.op = "trunc" -> PSub(R[c.a], PTimesVarPow(Lc(st, R[c.a]), st.x, Deg(st, R[c.a])))
    [] c.op = "normal" -> IF PIsZero(R[c.a]) THEN R[c.a] ELSE PScale(QDiv("1", Unit(st, R[c.a])), R[c.a])
    [] c.op = "mod" -> LET G(y) == ZRemT(y, c.c) IN Map(R[c.a], G)
    [] c.op = "divc" -> (CASE st.ring = "Q" -> PScale(QDiv("1", c.c), R[c.a])
                          [] st.ring = "Z" -> LET G(y) == ZQuoT(y, c.c) IN Map(R[c.a], G)
                          [] st.ring = "P" -> F!DivRem(R[c.a], Co(st, c.c))[1])
    [] c.op = "muln" -> PScale(c.n, R[c.a])
    [] c.op = "prem" -> F!Prem(R[c.a], R[c.b], st.x)
    [] c.op = "gcd" -> GcdQ(st, R[c.a], R[c.b])
Pre(st, c) ==
  LET R == st.regs IN
  CASE c.op \in {"trunc", "coprime"} -> ~PIsZero(R[c.a])
    [] c.op = "divrem" -> ~PIsZero(R[c.b])
    [] c.op \in {"prem", "gcd", "egcd"} -> ~PIsZero(R[c.a]) /\ ~PIsZero(R[c.b])
    [] c.op = "remp" -> ~PIsZero(R[c.a]) /\ ~PIsZero(R[c.b]) /\ Deg(st, R[c.a]) >= Deg(st, R[c.b])
    [] c.op = "divc" -> st.ring = "P" => F!Divides(Co(st, c.c), R[c.a])
    [] c.op = "tonum" -> PVars(R[c.a]) \subseteq {st.x}
    [] c.op = "toint" -> \A m \in DOMAIN R[c.a] : QIsInt(R[c.a][m])
    [] OTHER -> TRUE

\* s is a positive or negative multiple of p with coprime integer coefficients.
CoprimeOf(s, p) == /\ DOMAIN s = DOMAIN p
                   /\ \A m \in DOMAIN s : QIsInt(s[m])
                   /\ F!GcdNum(F!Coefs(s)) = "1"
                   /\ \E m \in DOMAIN s : PScale(QDiv(s[m], p[m]), p) = s
ViewOk(st, e) ==
  LET p == st.regs[e.a]  r == e.r  nv == st.nv IN
  /\ r.zero = PIsZero(p) /\ r.is_zero = r.zero
  /\ r.one = (p = PConst(nv, "1")) /\ r.is_one = r.one
  /\ r.const = ConstP(st, p)
  /\ r.lin = (Deg(st, p) <= 1)
  /\ r.number = PIsConst(p) /\ r.univ = (PVars(p) \subseteq {st.x})
  /\ r.cpart = PConstPart(nv, p)
  /\ {r.vars[i] : i \in 1..Len(r.vars)} = PVars(p) /\ Len(r.vars) = Cardinality(PVars(p))
  /\ \A i \in 1..nv : i # st.x => r.has[i] = (i \in PVars(p))
  /\ st.x \in PVars(p) => r.has[st.x]
  /\ Is(st, r.onepoly, PConst(nv, "1"))
  /\ F!Canonical(nv, r.back, p)
  /\ ~PIsZero(p) => /\ r.deg = Deg(st, p) /\ CoIs(st, r.lc, Lc(st, p)) /\ CoIs(st, r.tc, Tc(st, p))
                    /\ CoIs(st, r.unit, PConst(nv, Unit(st, p))) /\ r.normal = (Unit(st, p) = "1")
                    /\ r.zroot = PIsZero(Tc(st, p)) /\ r.tdeg = PDeg(p)
  /\ (st.ring # "Z") => /\ r.den = F!LcmDen(F!Coefs(p))
                        /\ QAbs(r.cont) = (IF PIsZero(p) THEN "0" ELSE QDiv("1", F!CoprimeAbs(F!Coefs(p))))

RelPairs(r, p, q) == IF r.lt THEN {<<p, q>>} ELSE IF r.gt THEN {<<q, p>>} ELSE {}
CmpOk(st, e) ==
  LET p == st.regs[e.a]  q == st.regs[e.b]  r == e.r  eq == (p = q) IN
  /\ r.eq = eq /\ r.ne = ~eq
  /\ eq => ~r.lt /\ ~r.gt /\ r.hash
  /\ ~eq => r.lt # r.gt
  /\ r.less = r.stdless /\ r.pless = r.less
  /\ eq => ~r.less /\ ~r.greater
  /\ ~eq => r.less # r.greater
  /\ ~r.nulls[1] /\ r.nulls[2] # r.nulls[3]
  /\ \A y \in RelPairs(r, p, q) :
       /\ <<y[2], y[1]>> \notin st.ord
       /\ \A z \in st.ord : (z[1] = y[2]) => <<z[2], y[1]>> \notin st.ord

SynthVal(st, e) ==
  LET p == st.regs[e.a] IN
  IF PIsZero(PSubst(st.nv, p, st.x, PConst(st.nv, e.c)))
    THEN DivRemQ(st, p, PSub(PVar(st.nv, st.x), PConst(st.nv, e.c)))[1] ELSE p

Other(st, e) ==
  LET R == st.regs  nv == st.nv  r == e.r IN
  CASE e.op = "dump" -> Len(r) = Len(R) /\ \A i \in 1..Len(r) : Is(st, r[i], R[i])
    [] e.op = "eval" -> LET v == PSubst(nv, R[e.a], st.x, Co(st, e.c)) IN
                        /\ CoIs(st, r.v, v) /\ CoIs(st, r.m, v)
                        /\ (st.ring # "P") => r.root = PIsZero(v) /\ r.isroot = PIsZero(v) /\ r.sgn = QSgn(Num(v))
    [] e.op = "cmp" -> CmpOk(st, e)
    [] e.op = "cmpc" -> r.l = (R[e.a] = Co(st, e.c)) /\ r.r = r.l
    [] e.op = "view" -> ViewOk(st, e)
    [] e.op = "coprime" -> (st.ring # "Z") =>
         LET p == R[e.a]  f == r.f  s == PScale(f, p) IN
         /\ CoprimeOf(s, p) /\ Is(st, r.p, s) /\ Is(st, r.s, PScale(QAbs(f), p))
    [] e.op = "prim" -> LET p == R[e.a]  n == IF PIsZero(p) THEN p ELSE PScale(Unit(st, p), p) g == F!GcdNum(F!Coefs(p)) IN
                        /\ r.c = g
                        /\ Is(st, r.p, IF PIsZero(p) THEN p ELSE PScale(QDiv("1", g), n))
    [] e.op = "divrem" ->
         IF st.ring = "Q" THEN LET d == DivRemQ(st, R[e.a], R[e.b]) IN Is(st, r.q, d[1]) /\ Is(st, r.r, d[2]) /\ Is(st, r.rem, d[2])
         ELSE LET q == FromList(st, r.q, 1)  m == FromList(st, r.r, 1) IN
              /\ Is(st, r.q, q) /\ Is(st, r.r, m)
              /\ \A x \in F!Coefs(q) \cup F!Coefs(m) : QIsInt(x)
              /\ PAdd(PMul(q, R[e.b]), m) = R[e.a]
              \* exact division is found
              /\ (LET d == DivRemQ(st, R[e.a], R[e.b]) IN
                  (\A x \in F!Coefs(d[1]) : QIsInt(x)) => q = d[1])
    [] e.op = "remp" -> Is(st, r, F!Prem(R[e.a], R[e.b], st.x))
    [] e.op = "tonum" -> LET u == F!View(R[e.a], st.x) IN Len(r) = Len(u) /\ \A i \in 1..Len(u) : PConst(nv, r[i]) = u[i]
    [] e.op = "toint" -> Is(st, r, R[e.a])
    [] e.op = "egcd" -> LET g == FromList(st, r.g, 1) s == FromList(st, r.s, 1) t == FromList(st, r.t, 1) IN
                        /\ Is(st, r.g, GcdQ(st, R[e.a], R[e.b]))
                        /\ Is(st, r.s, s) /\ Is(st, r.t, t)
                        /\ PAdd(PMul(s, R[e.a]), PMul(t, R[e.b])) = g
    [] e.op = "synth" -> LET v == PSubst(nv, R[e.a], st.x, PConst(nv, e.c)) IN
                         /\ PConst(nv, r.v) = v
                         /\ Is(st, r.p, SynthVal(st, e))
    [] e.op = "convert" -> Is(st, r.id, R[e.a]) /\ Is(st, r.f, PScale(e.c, R[e.a]))

Allowed(st, e) ==
  IF "skip" \in DOMAIN e THEN ~Pre(st, e)
  ELSE /\ Pre(st, e)
       /\ IF e.op \in Mutators THEN Is(st, e.r, Value(st, e)) ELSE Other(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF e.op \in Mutators
    THEN LET new == [st.regs EXCEPT ![Target(e)] = Value(st, e)]
         IN  [st EXCEPT !.regs = IF e.op = "move" /\ e.a # e.d THEN [new EXCEPT ![e.a] = PZero] ELSE new]
  ELSE IF e.op = "synth" THEN [st EXCEPT !.regs[e.a] = SynthVal(st, e)]
  ELSE IF e.op = "cmp" THEN [st EXCEPT !.ord = @ \cup RelPairs(e.r, st.regs[e.a], st.regs[e.b])]
  ELSE st
=============================================================================
