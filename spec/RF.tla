---------------------------------- MODULE RF ----------------------------------
(* Rational functions (C34): registers of quotients of polynomials.  A         *)
(* register holds the observed pair; each operation must return a pair that    *)
(* denotes the exact result of the operation on the pairs before.              *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly
Fr(n, d) == [n |-> n, d |-> d]
Same(x, y) == PMul(x.n, y.d) = PMul(y.n, x.d)
FAdd(x, y) == Fr(PAdd(PMul(x.n, y.d), PMul(y.n, x.d)), PMul(x.d, y.d))
FSub(x, y) == Fr(PSub(PMul(x.n, y.d), PMul(y.n, x.d)), PMul(x.d, y.d))
FMul(x, y) == Fr(PMul(x.n, y.n), PMul(x.d, y.d))
FDiv(x, y) == Fr(PMul(x.n, y.d), PMul(x.d, y.n))
FOne(nv) == Fr(PConst(nv, "1"), PConst(nv, "1"))
RECURSIVE FPow(_, _, _)
FPow(nv, x, n) == IF n = 0 THEN FOne(nv) ELSE FMul(x, FPow(nv, x, n - 1))
Begin(e) == [nv |-> e.nv, as |-> e.as, reg |-> [i \in 1..e.k |-> Fr(PZero, PConst(e.nv, "1"))]]
Throws(st, e) == FALSE
Read(w) == Fr(PRead(w.n), PRead(w.d))
\* numerator and denominator as reported: well formed, denominator not zero
WF(st, w) == /\ PWellFormed(st.nv, w.n) /\ PWellFormed(st.nv, w.d) /\ PRead(w.d) # PZero
             /\ (st.as => w.simp)
             /\ w.const => PIsConst(PRead(w.n)) /\ PIsConst(PRead(w.d))
Poly1(st, p) == Fr(PRead(p), PConst(st.nv, "1"))
Operand(st, c) ==
  CASE c.k = "rf" -> st.reg[c.b]
    [] c.k \in {"sint", "uint"} -> Fr(PConst(st.nv, c.c), PConst(st.nv, "1"))
    [] c.k = "var" -> Fr(PVar(st.nv, c.v), PConst(st.nv, "1"))
    [] OTHER -> Poly1(st, c.p)
Bin(f, x, y) == CASE f = "add" -> FAdd(x, y) [] f = "sub" -> FSub(x, y) [] f = "mul" -> FMul(x, y) [] f = "div" -> FDiv(x, y)
New(st, c) ==
  CASE c.how = "def" -> Fr(PZero, PConst(st.nv, "1"))
    [] c.how \in {"int", "num"} -> Fr(PConst(st.nv, c.c), PConst(st.nv, "1"))
    [] c.how = "var" -> Fr(PVar(st.nv, c.v), PConst(st.nv, "1"))
    [] c.how \in {"poly", "polymv"} -> Poly1(st, c.p)
    [] OTHER -> Fr(PRead(c.p), PRead(c.q))
RECURSIVE SubstAll(_, _, _, _)
SubstAll(nv, p, m, i) == IF i > Len(m) THEN p ELSE SubstAll(nv, PSubst(nv, p, m[i][1], PConst(nv, m[i][2])), m, i + 1)
SubstF(st, x, m) == Fr(SubstAll(st.nv, x.n, m, 1), SubstAll(st.nv, x.d, m, 1))
Pre(st, c) ==
  CASE c.op = "new" -> c.how \in {"quot", "quotmv"} => PRead(c.q) # PZero
    [] c.op = "bin" -> c.f = "div" => Operand(st, c).n # PZero
    [] c.op = "inv" -> st.reg[c.a].n # PZero
    [] c.op \in {"subst", "eval"} -> SubstAll(st.nv, st.reg[c.a].d, c.m, 1) # PZero
    [] OTHER -> TRUE
Is(st, w, x) == WF(st, w) /\ Same(Read(w), x)
Ok(st, e) == LET r == e.r IN
  CASE e.op = "new" -> Is(st, r, New(st, e))
    [] e.op = "bin" -> Is(st, r.x, Bin(e.f, st.reg[e.a], Operand(st, e)))
                       /\ (IF e.ip \/ e.d = e.a THEN Read(r.a) = Read(r.x) ELSE Read(r.a) = st.reg[e.a])
    [] e.op = "neg" -> Is(st, r, Fr(PNeg(st.reg[e.a].n), st.reg[e.a].d))
    [] e.op = "inv" -> Is(st, r, Fr(st.reg[e.a].d, st.reg[e.a].n))
    [] e.op = "pow" -> Is(st, r, FPow(st.nv, st.reg[e.a], e.n))
    [] e.op = "simp" -> Is(st, r, st.reg[e.a]) /\ r.simp
    [] e.op = "copy" -> Is(st, r, st.reg[e.a]) /\ Read(r) = st.reg[e.a]
    [] e.op = "subst" -> Is(st, r, SubstF(st, st.reg[e.a], e.m))
    [] e.op = "eval" -> LET x == SubstF(st, st.reg[e.a], e.m) IN Same(x, Fr(PConst(st.nv, r.v), PConst(st.nv, "1")))
    [] e.op = "view" -> /\ Read(r.x) = st.reg[e.a]
                        /\ r.zero = (st.reg[e.a].n = PZero)
                        /\ r.one = (st.reg[e.a].n = st.reg[e.a].d)
    [] e.op = "cmp" -> LET x == st.reg[e.a] y == st.reg[e.b] IN
         /\ r.ne = ~r.eq
         /\ (st.as => r.eq = Same(x, y))
         /\ r.eq => Same(x, y) /\ r.hash /\ ~r.lt /\ ~r.gt
         /\ x = y => r.eq
         /\ ~(r.lt /\ r.gt)
         /\ ~Same(x, y) => (r.lt \/ r.gt)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE CASE e.op = "bin" -> [st EXCEPT !.reg[IF e.ip THEN e.a ELSE e.d] = Read(e.r.x)]
         [] e.op = "simp" -> [st EXCEPT !.reg[e.a] = Read(e.r)]
         [] e.op \in {"eval", "view", "cmp"} -> st
         [] OTHER -> [st EXCEPT !.reg[e.d] = Read(e.r)]
===============================================================================
