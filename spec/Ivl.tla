-------------------------------- MODULE Ivl ---------------------------------
(***************************************************************************)
(* A register machine over intervals with rational bounds.  Registers hold *)
(* sets (IvlLib); an arithmetic command must produce an interval that      *)
(* contains the exact image, and the exact hull where the command promises *)
(* it; the register then holds what the implementation produced.           *)
(***************************************************************************)
EXTENDS IvlLib, TLC

Begin(e) == [regs |-> [i \in 1..e.k |-> Empty]]
Throws(st, e) == FALSE

Exact(st, c) ==
  LET R == st.regs IN
  CASE c.op = "lit" -> Abs(c.x)
    [] c.op \in {"bin", "inp"} -> (CASE c.f = "add" -> IAdd(R[c.a], R[c.b]) [] c.f = "sub" -> ISub(R[c.a], R[c.b]) [] c.f = "mul" -> IMul(R[c.a], R[c.b]))
    [] c.op \in {"num", "numin"} -> (CASE c.f = "add" -> IAdd(R[c.a], Pt(c.c)) [] c.f = "sub" -> ISub(R[c.a], Pt(c.c))
                                     [] c.f = "rsub" -> ISub(Pt(c.c), R[c.a]) [] c.f = "mul" -> IScale(c.c, R[c.a])
                                     [] c.f = "div" -> IScale(QDiv("1", c.c), R[c.a]))
    [] c.op = "neg" -> INeg(R[c.a])
    [] c.op = "copy" -> R[c.a]
    [] c.op = "pow" -> IPow(R[c.a], c.n)
    [] c.op = "int" -> IntPart(R[c.a])
    [] c.op = "hull" -> Hull(R[c.a], R[c.b])
    [] c.op = "cap" -> Cap(R[c.a], R[c.b])
    [] c.op = "bloat" -> IF IsE(R[c.a]) THEN Empty ELSE LET X == R[c.a] IN Mk(QSub(X.l, c.c), X.lt, QAdd(X.u, c.c), X.ut)
    [] c.op = "setl" -> LET X == R[c.a] IN Mk(c.c, c.t, X.u, X.ut)
    [] c.op = "setu" -> LET X == R[c.a] IN Mk(X.l, X.lt, c.c, c.t)
ExactOps == {"lit", "bin", "inp", "num", "numin", "neg", "copy", "pow", "int", "hull", "cap", "bloat", "setl", "setu"}
\* Only enclosure is promised.
Image(st, c) ==
  LET R == st.regs IN
  CASE c.op = "div" -> DivSet(R[c.a], R[c.b])
    [] c.op = "abs" -> {IAbs(R[c.a])}
    [] c.op = "floor" -> {FloorImg(R[c.a])}
    [] c.op = "ceil" -> {CeilImg(R[c.a])}
EncloseOps == {"div", "abs", "floor", "ceil"}
Target(c) == IF c.op \in {"inp", "numin", "bloat", "setl", "setu"} THEN c.a ELSE c.d

Bounded(X) == ~IsE(X) /\ X.lt # "I" /\ X.ut # "I"
Pre(st, c) ==
  LET R == st.regs IN
  CASE c.op = "div" -> ~IsE(R[c.b]) /\ ~In("0", R[c.b])
    [] c.op = "split" -> ~IsE(R[c.a]) /\ ~(R[c.a].lt = "W" /\ R[c.a].ut = "W" /\ R[c.a].l = R[c.a].u)
                          /\ (c.n > 0 => Bounded(R[c.a]))
    [] c.op = "sample" -> ~IsE(R[c.a]) /\ ~(R[c.a].lt = "W" /\ R[c.a].ut = "W" /\ R[c.a].l = R[c.a].u /\ ~c.incl)
    [] c.op = "bloat" -> ~IsE(R[c.a])
    [] c.op = "setl" -> LET X == R[c.a] IN ~IsE(X) /\ ~IsE(Mk(c.c, c.t, X.u, X.ut))
    [] c.op = "setu" -> LET X == R[c.a] IN ~IsE(X) /\ ~IsE(Mk(X.l, X.lt, c.c, c.t))
    [] OTHER -> TRUE

Two(r) == IF r.two THEN {Abs(r.a), Abs(r.b)} ELSE {Abs(r.a)}
Interior(x, X) == In(x, X) /\ (X.lt = "I" \/ x # X.l) /\ (X.ut = "I" \/ x # X.u)
AllSat(X, rel) == CASE rel = "lt" -> Sub(X, Mk("0", "I", "0", "S")) [] rel = "le" -> Sub(X, Mk("0", "I", "0", "W"))
                    [] rel = "gt" -> Sub(X, Mk("0", "S", "0", "I")) [] rel = "ge" -> Sub(X, Mk("0", "W", "0", "I"))
                    [] rel = "eq" -> Sub(X, Pt("0")) [] rel = "ne" -> ~In("0", X)
Compl(rel) == CASE rel = "lt" -> "ge" [] rel = "le" -> "gt" [] rel = "gt" -> "le" [] rel = "ge" -> "lt" [] rel = "eq" -> "ne" [] rel = "ne" -> "eq"
\* every member of X below every member of Y
AllLt(X, Y) == X.ut # "I" /\ Y.lt # "I" /\ (QLt(X.u, Y.l) \/ (X.u = Y.l /\ ~(X.ut = "W" /\ Y.lt = "W")))
AllLe(X, Y) == X.ut # "I" /\ Y.lt # "I" /\ QLe(X.u, Y.l)
ViewOk(X, r) ==
  /\ Abs(r.x) = X
  /\ r.empty = IsE(X)
  /\ r.inf = (X = Full)
  /\ r.unb = (X.lt = "I" \/ X.ut = "I")
  /\ r.half = ((X.lt = "I") # (X.ut = "I"))
  /\ r.point = (~IsE(X) /\ X.lt = "W" /\ X.ut = "W" /\ X.l = X.u)
  /\ r.closed = (X.lt = "W" /\ X.ut = "W")
  /\ ~IsE(X) => r.open = (X.lt = "S" /\ X.ut = "S")
  /\ r.zero = (X = Pt("0")) /\ r.one = (X = Pt("1"))
  /\ r.isint = (r.point /\ QIsInt(X.l))
  /\ ~IsE(X) => /\ r.pos = AllSat(X, "gt") /\ r.neg = AllSat(X, "lt") /\ r.spos = AllSat(X, "ge") /\ r.sneg = AllSat(X, "le")
                /\ r.sgn = (IF AllSat(X, "gt") THEN 1 ELSE IF AllSat(X, "lt") THEN -1 ELSE 0)
  /\ r.hasint = ~IsE(IntPart(X))
  /\ Bounded(X) => r.diam = QSub(X.u, X.l) /\ r.mag = QMax(QAbs(X.l), QAbs(X.u))
  /\ ~IsE(X) => \A rel \in {"lt", "le", "gt", "ge", "eq", "ne"} :
                  r.rel[rel] = (IF AllSat(X, rel) THEN "t" ELSE IF AllSat(X, Compl(rel)) THEN "f" ELSE "?")
PairOk(X, Y, r) ==
  /\ r.eq = (X = Y) /\ r.ne = ~r.eq /\ (X = Y => r.hash)
  /\ r.sub = Sub(X, Y) /\ r.psub = (Sub(X, Y) /\ X # Y) /\ r.meet = ~IsE(Cap(X, Y)) /\ r.contains = Sub(Y, X)
  /\ (~IsE(X) /\ ~IsE(Y)) =>
       /\ r.lt = AllLt(X, Y) /\ r.gt = AllLt(Y, X) /\ r.le = AllLe(X, Y) /\ r.ge = AllLe(Y, X)
       /\ r.lolt = ~LoLe(Y, X) /\ r.lole = LoLe(X, Y) /\ r.uplt = ~UpLe(Y, X) /\ r.uple = UpLe(X, Y)
       /\ r.uplo = AllLt(X, Y) /\ r.loup = ~AllLt(Y, X)
       /\ r.dist = (IF AllLt(X, Y) THEN QSub(Y.l, X.u) ELSE IF AllLt(Y, X) THEN QSub(X.l, Y.u) ELSE "0")
AllowTouch(X, c) == (X.lt = "I" \/ QLe(X.l, c)) /\ (X.ut = "I" \/ QLe(c, X.u))
NumOk(X, c, r) ==
  /\ r.in = In(c, X) /\ r.eq = (X = Pt(c)) /\ r.eq2 = r.eq /\ r.ne = ~r.eq
  /\ ~IsE(X) => /\ r.lt = AllLt(X, Pt(c)) /\ r.gt = AllLt(Pt(c), X) /\ r.le = AllLe(X, Pt(c)) /\ r.ge = AllLe(Pt(c), X)
                /\ r.nlt = r.gt /\ r.ngt = r.lt /\ r.nle = r.ge /\ r.nge = r.le
                /\ r.meets = AllowTouch(X, c)
\* consecutive parts are disjoint and their union is X
PartsOk(ps, X) == /\ SameSet({Abs(ps[i]) : i \in 1..Len(ps)}, {X})
                  /\ \A i, j \in 1..Len(ps) : i # j => IsE(Cap(Abs(ps[i]), Abs(ps[j])))
Other(st, e) ==
  LET R == st.regs  r == e.r IN
  CASE e.op = "view" -> ViewOk(R[e.a], r)
    [] e.op = "pair" -> PairOk(R[e.a], R[e.b], r)
    [] e.op = "cmpn" -> NumOk(R[e.a], e.c, r)
    [] e.op = "recip" -> SubUnion(RecipSet(R[e.a]), Two(r))
    [] e.op = "divext" -> SubUnion(RelDivSet(R[e.a], R[e.b]), Two(r))
    [] e.op = "union" -> SameSet(Two(r), {R[e.a], R[e.b]}) /\ r.two = ~Joined(R[e.a], R[e.b])
    [] e.op = "minus" -> SameSet(Two(r), Minus(R[e.a], R[e.b]))
    [] e.op = "symm" -> SameSet(Two(r), Minus(R[e.a], R[e.b]) \cup Minus(R[e.b], R[e.a]))
    [] e.op = "compl" -> SameSet(Two(r), {Below(R[e.a]), Above(R[e.a])})
    [] e.op = "split" -> PartsOk(r, R[e.a])
    [] e.op = "sample" -> /\ In(r.sample, R[e.a]) /\ In(r.sb, R[e.a])
                          /\ ~e.incl => Interior(r.sample, R[e.a]) /\ Interior(r.sb, R[e.a])
                          /\ \A x \in {r.center, r.left, r.right, r.zero, r.infty} : In(x, R[e.a])

Allowed(st, e) ==
  IF "skip" \in DOMAIN e THEN ~Pre(st, e)
  ELSE /\ Pre(st, e)
       /\ IF e.op \in ExactOps THEN Abs(e.r) = Exact(st, e)
          ELSE IF e.op \in EncloseOps THEN SubUnion(Image(st, e), {Abs(e.r)})
          ELSE Other(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF e.op \in ExactOps \cup EncloseOps THEN [st EXCEPT !.regs[Target(e)] = Abs(e.r)]
  ELSE st
=============================================================================
