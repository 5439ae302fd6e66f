-------------------------------- MODULE FIvl ---------------------------------
(* Intervals with double bounds (C15).  Registers hold the sets the library   *)
(* reported; every operation must report a set that contains the exact image  *)
(* of its operands.  Doubles are exchanged as exact rationals.                *)
EXTENDS Integers, Sequences, FiniteSets, Q, IvlLib
Begin(e) == [r |-> [i \in 1..e.k |-> Empty]]
Throws(st, e) == FALSE
\* Below the normal doubles nothing is promised, as 1/x is no double.
Tiny == QPow("1/2", 1022)
Subnormal(X) == ~IsE(X) /\ \E b \in {X.l, X.u} : b # "0" /\ QLt(QAbs(b), Tiny)
Pre(st, c) ==
  CASE c.op = "div" -> ~IsE(st.r[c.b]) /\ ~In("0", st.r[c.b])
    [] c.op = "num" -> c.f = "div" => c.c # "0"
    [] c.op \in {"sqrt", "root"} -> ~Subnormal(st.r[c.a])
    [] OTHER -> TRUE
\* Is the set of n-th roots of members of X (the non-negative ones if n is even) inside Y?
NNeg == Mk("0", "W", "0", "I")
RootIn(X, n, Y) ==
  IF n % 2 = 0
  THEN LET P == Cap(X, NNeg) IN IF IsE(P) THEN TRUE ELSE ~IsE(Y) /\ Sub(P, IPow(Cap(Y, NNeg), n))
  ELSE IsE(X) \/ (~IsE(Y) /\ Sub(X, IPow(Y, n)))
\* The exact image as a set of intervals, whose union has to be covered.
Img(st, c) ==
  LET R == st.r IN
  CASE c.op = "lit" -> {Abs(c.x)}
    [] c.op \in {"bin", "inp"} -> {CASE c.f = "add" -> IAdd(R[c.a], R[c.b]) [] c.f = "sub" -> ISub(R[c.a], R[c.b]) [] OTHER -> IMul(R[c.a], R[c.b])}
    [] c.op \in {"num", "numin"} -> {CASE c.f = "add" -> IAdd(R[c.a], Pt(c.c)) [] c.f = "sub" -> ISub(R[c.a], Pt(c.c)) [] c.f = "rsub" -> ISub(Pt(c.c), R[c.a])
                           [] c.f = "div" -> IScale(QDiv("1", c.c), R[c.a]) [] OTHER -> IScale(c.c, R[c.a])}
    [] c.op = "div" -> DivSet(R[c.a], R[c.b])
    [] c.op = "neg" -> {INeg(R[c.a])}
    [] c.op = "copy" -> {R[c.a]}
    [] c.op = "pow" -> {IPow(R[c.a], c.n)}
    [] c.op = "abs" -> {IAbs(R[c.a])}
    [] c.op = "floor" -> {FloorImg(R[c.a])}
    [] c.op = "ceil" -> {CeilImg(R[c.a])}
    [] c.op = "int" -> {IntPart(R[c.a])}
    [] c.op = "hull" -> {R[c.a], R[c.b]}
    [] c.op = "cap" -> {Cap(R[c.a], R[c.b])}
Two(r) == IF r.two THEN {Abs(r.a), Abs(r.b)} ELSE {Abs(r.a)}
Ok(st, e) ==
  LET R == st.r  r == e.r IN
  CASE e.op \in {"sqrt", "root"} -> RootIn(R[e.a], e.n, Abs(r))
    [] e.op = "recip" -> SubUnion(RecipSet(R[e.a]), Two(r))
    [] e.op = "divext" -> SubUnion(RelDivSet(R[e.a], R[e.b]), Two(r))
    [] e.op = "union" -> SameSet(Two(r), {R[e.a], R[e.b]})
    [] e.op = "exact" -> Abs(r) = R[e.a]               \* to rational bounds and back
    [] e.op = "in" -> r = In(e.c, R[e.a])
    [] e.op = "round" -> /\ (r.dn = "-oo" \/ (r.dn # "+oo" /\ QLe(r.dn, e.c))) /\ (r.up = "+oo" \/ (r.up # "-oo" /\ QLe(e.c, r.up)))
                         /\ (r.dno = "-oo" \/ (r.dno # "+oo" /\ QLt(r.dno, e.c))) /\ (r.upo = "+oo" \/ (r.upo # "-oo" /\ QLt(e.c, r.upo)))
                         /\ e.exact => r.dn = e.c /\ r.up = e.c
    [] OTHER -> SubUnion(Img(st, e), {Abs(r)}) /\ (e.op \in {"copy", "neg", "cap"} => SameSet(Img(st, e), {Abs(r)}))
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e \/ e.op \in {"recip", "divext", "union", "exact", "in", "round"} THEN st
                ELSE [st EXCEPT !.r[IF e.op \in {"inp", "numin"} THEN e.a ELSE e.d] = Abs(e.r)]
=============================================================================
