--------------------------------- MODULE Fact ---------------------------------
(* Factorised polynomials (C35): registers of polynomials; however a value is  *)
(* represented, it is the exact result of the operations that led to it.       *)
EXTENDS PGcd
Begin(e) == [nv |-> e.nv, reg |-> [i \in 1..e.k |-> PZero]]
Throws(st, e) == FALSE
N(st, c) == PConst(st.nv, c)
Bin(f, p, q) == CASE f = "add" -> PAdd(p, q) [] f = "sub" -> PSub(p, q) [] f = "mul" -> PMul(p, q)
RECURSIVE DerivN(_, _, _)
DerivN(p, v, n) == IF n = 0 THEN p ELSE DerivN(PDeriv(p, v), v, n - 1)
RECURSIVE SubstAll(_, _, _, _)
SubstAll(nv, p, m, i) == IF i > Len(m) THEN p ELSE SubstAll(nv, PSubst(nv, p, m[i][1], PConst(nv, m[i][2])), m, i + 1)
RECURSIVE Prod(_, _, _)
Prod(nv, l, i) == IF i > Len(l) THEN PConst(nv, "1") ELSE PMul(PPow(nv, PRead(l[i].p), l[i].e), Prod(nv, l, i + 1))
Value(st, c) ==
  CASE c.op = "new" -> PRead(c.p)
    [] c.op = "bin" -> Bin(c.f, st.reg[c.a], st.reg[c.b])
    [] c.op = "num" -> (CASE c.f = "div" -> PScale(QDiv("1", c.c), st.reg[c.a])
                          [] c.f = "sub" /\ c.left /\ ~c.ip -> PSub(N(st, c.c), st.reg[c.a])
                          [] OTHER -> Bin(c.f, st.reg[c.a], N(st, c.c)))
    [] c.op = "neg" -> PNeg(st.reg[c.a])
    [] c.op = "pow" -> PPow(st.nv, st.reg[c.a], c.n)
    [] c.op = "der" -> DerivN(st.reg[c.a], c.v, c.n)
    [] c.op \in {"copy", "quo"} -> st.reg[c.a]
    [] c.op = "subst" -> SubstAll(st.nv, st.reg[c.a], c.m, 1)
Values == {"new", "bin", "num", "neg", "pow", "der", "copy", "quo", "subst"}
Target(c) == IF c.op \in {"bin", "num"} /\ c.ip THEN c.a ELSE c.d
Pre(st, c) ==
  CASE c.op = "num" -> c.f = "div" => c.c # "0"
    [] c.op \in {"gcd", "lcm", "cm", "cd"} -> st.reg[c.a] # PZero /\ st.reg[c.b] # PZero
    [] c.op \in {"lazy", "quo"} -> st.reg[c.b] # PZero
    [] c.op = "factor" -> ~PIsConst(st.reg[c.a])
    [] OTHER -> TRUE
\* the registers read are unchanged
Kept(st, e) == PRead(e.r.a) = st.reg[e.a] /\ PRead(e.r.b) = st.reg[e.b]
Ok(st, e) == LET r == e.r IN
  CASE e.op \in Values -> PIs(st.nv, r, Value(st, e))
    [] e.op = "gcd" -> LET p == st.reg[e.a] q == st.reg[e.b] g == PRead(r.g) IN
         /\ Kept(st, e) /\ PWellFormed(st.nv, r.g)
         /\ PGIsGcd(st.nv, g, p, q)
         /\ e.rest => PMul(g, PRead(r.ra)) = p /\ PMul(g, PRead(r.rb)) = q
    [] e.op = "lcm" -> Kept(st, e) /\ PGIsLcm(st.nv, PRead(r.g), st.reg[e.a], st.reg[e.b])
    [] e.op = "cm" -> Kept(st, e) /\ PGDivides(st.reg[e.a], PRead(r.g)) /\ PGDivides(st.reg[e.b], PRead(r.g))
    [] e.op = "cd" -> Kept(st, e) /\ PGDivides(PRead(r.g), st.reg[e.a]) /\ PGDivides(PRead(r.g), st.reg[e.b])
    [] e.op = "lazy" -> PRead(r.d) # PZero /\ PMul(PRead(r.n), st.reg[e.b]) = PMul(PRead(r.d), st.reg[e.a])
    [] e.op = "factor" -> /\ PScale(r.c, Prod(st.nv, r.l, 1)) = st.reg[e.a]
                          /\ \A i \in DOMAIN r.l : r.l[i].e >= 1 /\ ~PIsConst(PRead(r.l[i].p))
    [] e.op = "eval" -> PConst(st.nv, r.v) = SubstAll(st.nv, st.reg[e.a], e.m, 1)
    [] e.op = "view" -> LET p == st.reg[e.a] IN
         /\ PIs(st.nv, r.p, p) /\ PIs(st.nv, r.pc, p) /\ PIs(st.nv, r.cast, p)
         /\ r.const = PIsConst(p) /\ r.zero = PIsZero(p) /\ r.one = (p = PConst(st.nv, "1"))
         /\ r.deg = PDeg(p) /\ r.cp = PConstPart(st.nv, p) /\ r.hasc = (r.cp # "0")
         /\ r.lc = (IF PIsZero(p) THEN "0" ELSE LeadCoef(p))
         /\ r.lin = (PDeg(p) <= 1) /\ r.terms = Cardinality(DOMAIN p)
         /\ r.has = [i \in 1..st.nv |-> i \in PVars(p)]
         /\ ~PIsConst(p) => r.uni = (Cardinality(PVars(p)) = 1)
    [] e.op = "cmp" -> LET p == st.reg[e.a] q == st.reg[e.b] IN
         /\ r.eq = (p = q) /\ r.ne = (p # q)
         /\ r.lt = (IF p = q THEN FALSE ELSE ~r.gt) /\ r.le = ~r.gt /\ r.ge = ~r.lt
         /\ p = q => ~r.gt
         /\ r.neq = (p = N(st, e.c)) /\ r.nne = (p # N(st, e.c))
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF e.op \in Values THEN [st EXCEPT !.reg[Target(e)] = PRead(e.r)]
  ELSE IF e.op \in {"gcd", "lcm", "cm", "cd"} THEN [st EXCEPT !.reg[e.d] = PRead(e.r.g)]
  ELSE st
===============================================================================
