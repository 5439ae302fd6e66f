--------------------------------- MODULE Form ---------------------------------
(* Formulas (C22).  A formula means a set of assignments: for every sample    *)
(* point of the arithmetic variables the set of valuations of the Boolean     *)
(* variables 1..nb (numbers 0..2^nb-1) under which it holds.                  *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly
NoHandles == [x \in {} |-> 0]
Begin(e) == [nv |-> e.nv, nb |-> e.nb, ty |-> e.types, pts |-> e.pts, f |-> NoHandles]
Throws(st, e) == FALSE
\* ---- meaning ---------------------------------------------------------------
All(n) == 0..(2 ^ n - 1)
Bit(b, v) == (b \div 2 ^ (v - 1)) % 2 = 1
RelHolds(q, r) == CASE r = "=" -> q = "0" [] r = "!=" -> q # "0" [] r = "<" -> QLt(q, "0") [] r = "<=" -> QLe(q, "0") [] r = ">" -> QGt(q, "0") [] r = ">=" -> QGe(q, "0")
TAnd(n, s) == {b \in All(n) : \A i \in DOMAIN s : b \in s[i]}
TOr(n, s) == UNION {s[i] : i \in DOMAIN s}
TXor(n, s) == {b \in All(n) : Cardinality({i \in DOMAIN s : b \in s[i]}) % 2 = 1}
TIff(n, s) == {b \in All(n) : \A i, j \in DOMAIN s : (b \in s[i]) = (b \in s[j])}
TImp(n, s) == (All(n) \ s[1]) \cup s[2]
TIte(n, s) == (s[1] \cap s[2]) \cup (s[3] \ s[1])
TOp(n, t, s) == CASE t = "and" -> TAnd(n, s) [] t = "or" -> TOr(n, s) [] t = "xor" -> TXor(n, s) [] t = "iff" -> TIff(n, s)
                  [] t = "implies" -> TImp(n, s) [] t = "ite" -> TIte(n, s) [] t = "not" -> All(n) \ s[1]
\* ... of tree t over Boolean variables 1..n at point a
RECURSIVE Mean(_, _, _, _)
Mean(nv, n, t, a) ==
  CASE t.t = "true" -> All(n) [] t.t = "false" -> {}
    [] t.t = "bool" -> {b \in All(n) : Bit(b, t.v)}
    [] t.t = "con" -> IF RelHolds(PEval(nv, PRead(t.p), a), t.r) THEN All(n) ELSE {}
    [] OTHER -> TOp(n, t.t, [i \in DOMAIN t.a |-> Mean(nv, n, t.a[i], a)])
Means(st, t) == [k \in DOMAIN st.pts |-> Mean(st.nv, st.nb, t, st.pts[k])]
\* ---- shape -----------------------------------------------------------------
IsAtom(t) == t.t \in {"true", "false", "bool", "con"}
IsLit(t) == IsAtom(t) \/ (t.t = "not" /\ IsAtom(t.a[1]))
IsClause(t) == IsLit(t) \/ (t.t = "or" /\ \A i \in DOMAIN t.a : IsLit(t.a[i]))
IsCnf(t) == IsClause(t) \/ (t.t = "and" /\ \A i \in DOMAIN t.a : IsClause(t.a[i]))
IsPure(t) == IsAtom(t) \/ (t.t = "and" /\ \A i \in DOMAIN t.a : IsAtom(t.a[i]))
RECURSIVE Bools(_)
Bools(t) == IF t.t = "bool" THEN {t.v} ELSE UNION {Bools(t.a[i]) : i \in DOMAIN t.a}
RECURSIVE Cons(_)
Cons(t) == IF t.t = "con" THEN {t} ELSE UNION {Cons(t.a[i]) : i \in DOMAIN t.a}
Vars(t) == UNION {PVars(PRead(c.p)) : c \in Cons(t)}
\* Trees that only differ in the order of the operands of a symmetric connective are the same formula.
RECURSIVE Canon(_)
Canon(t) == [t |-> t.t, v |-> t.v, p |-> t.p, r |-> t.r,
             a |-> {<<IF t.t \in {"implies", "ite"} THEN i ELSE 0, Canon(t.a[i])>> : i \in DOMAIN t.a}]
RECURSIVE NoConst(_)
NoConst(t) == \A i \in DOMAIN t.a : t.a[i].t \notin {"true", "false"} /\ NoConst(t.a[i])
\* ---- clauses with auxiliary variables (numbers above nb) -------------------
\* The literals of a clause under valuation b at point a: {} if it holds, otherwise the signed auxiliary variables wrapped in a one-element set.
Lits(t) == IF t.t = "or" THEN {t.a[i] : i \in DOMAIN t.a} ELSE {t}
Clauses(t) == IF t.t = "and" THEN {Lits(t.a[i]) : i \in DOMAIN t.a} ELSE {Lits(t)}
AtomOf(l) == IF l.t = "not" THEN l.a[1] ELSE l
IsAux(nb, l) == AtomOf(l).t = "bool" /\ AtomOf(l).v > nb
LitHolds(nv, nb, l, b, a) ==
  LET t == AtomOf(l)
      h == CASE t.t = "true" -> TRUE [] t.t = "false" -> FALSE [] t.t = "bool" -> Bit(b, t.v) [] t.t = "con" -> RelHolds(PEval(nv, PRead(t.p), a), t.r)
  IN  h # (l.t = "not")
Signed(l) == IF l.t = "not" THEN -AtomOf(l).v ELSE l.v
Rest(nv, nb, cs, b, a) == {{Signed(l) : l \in {x \in c : IsAux(nb, x)}} :
                             c \in {d \in cs : ~\E l \in d : ~IsAux(nb, l) /\ LitHolds(nv, nb, l, b, a)}}
Assign(cs, x) == {c \ {-x} : c \in {d \in cs : x \notin d}}
RECURSIVE Sat(_)
Sat(cs) == IF cs = {} THEN TRUE ELSE IF {} \in cs THEN FALSE
           ELSE LET m == CHOOSE c \in cs : \A d \in cs : Cardinality(c) <= Cardinality(d)
                    x == CHOOSE x \in m : TRUE
                IN  Sat(Assign(cs, x)) \/ (Cardinality(m) > 1 /\ Sat(Assign(cs, -x)))
CnfMeans(st, t) == LET cs == Clauses(t) IN
  [k \in DOMAIN st.pts |-> {b \in All(st.nb) : Sat(Rest(st.nv, st.nb, cs, b, st.pts[k]))}]
\* ---- expected meaning of the result of a call ------------------------------
Compl(st, m) == [k \in DOMAIN m |-> All(st.nb) \ m[k]]
\* Boolean variables replaced by meanings, arithmetic ones by polynomials
Env(st, c, k, b) == LET vs == {v \in 1..st.nb : LET j == {j \in DOMAIN c.bm : c.bm[j][1] = v} IN
                                 IF j = {} THEN Bit(b, v) ELSE b \in st.f[c.bm[CHOOSE x \in j : TRUE][2]].m[k]}
                    IN  LET RECURSIVE S(_)
                            S(v) == IF v = 0 THEN 0 ELSE (IF v \in vs THEN 2 ^ (v - 1) ELSE 0) + S(v - 1)
                        IN  S(st.nb)
Pt(st, c, k) == [i \in 1..st.nv |-> LET j == {j \in DOMAIN c.am : c.am[j][1] = i} IN
                   IF j = {} THEN st.pts[k][i] ELSE PEval(st.nv, PRead(c.am[CHOOSE x \in j : TRUE][2]), st.pts[k])]
SubstMeans(st, c) == [k \in DOMAIN st.pts |-> LET m == Mean(st.nv, st.nb, st.f[c.x].t, Pt(st, c, k)) IN {b \in All(st.nb) : Env(st, c, k, b) \in m}]
Expected(st, c) ==
  CASE c.op = "const" -> [k \in DOMAIN st.pts |-> IF c.b THEN All(st.nb) ELSE {}]
    [] c.op = "bool" -> [k \in DOMAIN st.pts |-> {b \in All(st.nb) : Bit(b, c.v)}]
    [] c.op = "con" -> [k \in DOMAIN st.pts |-> IF RelHolds(PEval(st.nv, PRead(c.p), st.pts[k]), c.rel) THEN All(st.nb) ELSE {}]
    [] c.op = "mk" -> [k \in DOMAIN st.pts |-> TOp(st.nb, c.t, [i \in DOMAIN c.a |-> st.f[c.a[i]].m[k]])]
    [] c.op = "build" -> Means(st, c.x)
    [] c.op = "not" -> Compl(st, st.f[c.x].m)
    [] c.op \in {"copy", "resolve", "cnf"} -> st.f[c.x].m
    [] c.op = "subst" -> SubstMeans(st, c)
Ints(l) == {l[i] : i \in DOMAIN l}
OkShape(st, e) == LET r == e.r  t == r.tree IN
  /\ NoConst(t)
  /\ Ints(r.same) = {h \in DOMAIN st.f : st.f[h].c = Canon(t)}
  /\ r.nn /\ r.not
  /\ Ints(r.bools) = Bools(t) /\ Ints(r.vars) = Vars(t)
  /\ r.lit = IsLit(t) /\ r.atom = IsAtom(t) /\ r.clause = IsClause(t) /\ r.cnf = IsCnf(t)
  /\ r.hasbool = (Bools(t) # {})
  /\ r.prop = (Cons(t) = {})
  /\ r.conj = (IsPure(t) /\ Bools(t) = {})
  /\ ~IsAtom(t) => /\ r.eq = (\E c \in Cons(t) : c.r = "=") /\ r.ineq = (\E c \in Cons(t) : c.r \in {"<=", ">="})
                   /\ r.strict = (\E c \in Cons(t) : c.r \in {"<", ">", "!="}) /\ r.weak = (\E c \in Cons(t) : c.r \in {"=", "<=", ">="})
                   /\ r.lin = (\E c \in Cons(t) : PDeg(PRead(c.p)) <= 1) /\ r.nonlin = (\E c \in Cons(t) : PDeg(PRead(c.p)) > 1)
  /\ Ints(r.inside) = {h \in DOMAIN st.f : st.f[h].c = Canon(t) \/ \E i \in DOMAIN t.a : st.f[h].c = Canon(t.a[i])}
  /\ r.ncons = Cardinality(Cons(t))
OkMeans(st, e) == LET t == e.r.tree  x == Expected(st, e) IN
  IF \E v \in Bools(t) : v > st.nb THEN e.op = "cnf" /\ IsCnf(t) /\ CnfMeans(st, t) = x
  ELSE /\ Means(st, t) = x
       /\ Means(st, e.r.neg) = Compl(st, x)
       /\ e.op = "cnf" => IsCnf(t)
\* The same connective of the same operands is the same formula, in whichever order they are given.
Ok(st, e) == e.op = "drop" \/ (OkShape(st, e) /\ OkMeans(st, e))
Allowed(st, e) == "skip" \notin DOMAIN e /\ Ok(st, e)
After(st, e) ==
  IF e.op = "drop" THEN [st EXCEPT !.f = [h \in DOMAIN st.f \ {e.x} |-> st.f[h]]]
  ELSE IF "to" \in DOMAIN e THEN [st EXCEPT !.f = [h \in DOMAIN st.f \cup {e.to} |->
         IF h = e.to THEN [t |-> e.r.tree, c |-> Canon(e.r.tree), m |-> Expected(st, e)] ELSE st.f[h]]]
  ELSE st
=============================================================================
