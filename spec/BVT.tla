-------------------------------- MODULE BVT ---------------------------------
(***************************************************************************)
(* Bit-vector terms and constraints (C20).                                 *)
(* A tree is [o, n, w, i, j, k]: operator, constant value or variable      *)
(* number, width, indices, operands.  A register holds the tree that was   *)
(* asked for; the implementation reports the tree it built.  They must     *)
(* agree under the assignments st.asg, and equal reported trees are the    *)
(* same object.                                                            *)
(***************************************************************************)
EXTENDS BVLib, FiniteSets, TLC
Tree(o, n, w, i, j, k) == [o |-> o, n |-> n, w |-> w, i |-> i, j |-> j, k |-> k]
Begin(e) == [vw |-> e.vw, asg |-> e.asg,
             reg |-> [i \in 1..e.k |-> Tree("const", "0", 1, 0, 0, <<>>)],
             terms |-> <<>>, cons |-> <<>>]
Throws(st, e) == FALSE
RECURSIVE Eval(_, _)
Eval(t, s) ==
  CASE t.o = "const" -> V(t.w, t.n)
    [] t.o = "var" -> V(t.w, s[t.i])
    [] t.o \in UnOps -> Un(t.o, Eval(t.k[1], s), t.i)
    [] t.o = "extract" -> Extract(Eval(t.k[1], s), t.i, t.j)
    [] OTHER -> Bin(t.o, Eval(t.k[1], s), Eval(t.k[2], s))
RECURSIVE Vars(_)
Vars(t) == IF t.o = "var" THEN {t.i} ELSE UNION {Vars(t.k[i]) : i \in 1..Len(t.k)}
\* Reported widths are those of the theory.
RECURSIVE Sound(_, _)
Sound(st, t) ==
  /\ \A i \in 1..Len(t.k) : Sound(st, t.k[i])
  /\ t.w = CASE t.o = "const" -> t.w [] t.o = "var" -> st.vw[t.i]
             [] t.o \in UnOps -> UnW(t.o, t.k[1].w, t.i)
             [] t.o = "extract" -> t.i - t.j + 1
             [] OTHER -> BinW(t.o, t.k[1].w, t.k[2].w)
RECURSIVE Sub(_, _)
Sub(t, m) ==   \* m: sequence of <<variable, tree>>
  IF t.o = "var"
  THEN IF \E i \in 1..Len(m) : m[i][1] = t.i THEN (m[CHOOSE i \in 1..Len(m) : m[i][1] = t.i])[2] ELSE t
  ELSE [t EXCEPT !.k = [i \in 1..Len(t.k) |-> Sub(t.k[i], m)]]
Pre(st, c) ==
  CASE c.op = "bin" -> c.o # "concat" => st.reg[c.a].w = st.reg[c.b].w
    [] c.op = "un" -> c.o = "rep" => c.i > 0
    [] c.op = "ext" -> c.l <= c.h /\ c.h < st.reg[c.a].w
    [] c.op = "sub" -> \A i \in 1..Len(c.m) : st.reg[c.m[i][2]].w = st.vw[c.m[i][1]]
    [] c.op \in {"con"} -> st.reg[c.a].w = st.reg[c.b].w
    [] OTHER -> TRUE
Val(st, c) ==
  CASE c.op = "const" -> Tree("const", V(c.w, c.n).n, c.w, 0, 0, <<>>)
    [] c.op = "var" -> Tree("var", "0", st.vw[c.v], c.v, 0, <<>>)
    [] c.op = "un" -> Tree(c.o, "0", UnW(c.o, st.reg[c.a].w, c.i), c.i, 0, <<st.reg[c.a]>>)
    [] c.op = "bin" -> Tree(c.o, "0", BinW(c.o, st.reg[c.a].w, st.reg[c.b].w), 0, 0, <<st.reg[c.a], st.reg[c.b]>>)
    [] c.op = "ext" -> Tree("extract", "0", c.h - c.l + 1, c.h, c.l, <<st.reg[c.a]>>)
    [] c.op = "sub" -> Sub(st.reg[c.a], [i \in 1..Len(c.m) |-> <<c.m[i][1], st.reg[c.m[i][2]]>>])
Moves(c) == c.op \in {"const", "var", "un", "bin", "ext", "sub"}
SameMeaning(st, t, u) == t.w = u.w /\ \A i \in 1..Len(st.asg) : Eval(t, st.asg[i]) = Eval(u, st.asg[i])
\* Identity: object id n stands for exactly one structure.
Ident(known, id, t) == IF id <= Len(known) THEN known[id] = t ELSE id = Len(known) + 1 /\ \A i \in 1..Len(known) : known[i] # t
TrueCon(b) == [rel |-> IF b THEN "eq" ELSE "ne", l |-> Tree("const", "0", 0, 0, 0, <<>>), r |-> Tree("const", "0", 0, 0, 0, <<>>)]
EvalCon(c, s) == IF c.l.w = 0 THEN c.rel = "eq" ELSE Cmp(c.rel, Eval(c.l, s), Eval(c.r, s))
SetOf(s) == {s[i] : i \in 1..Len(s)}
RelInv(r) == CASE r = "eq" -> "ne" [] r = "ne" -> "eq" [] r = "ult" -> "uge" [] r = "uge" -> "ult" [] r = "ugt" -> "ule" [] r = "ule" -> "ugt"
               [] r = "slt" -> "sge" [] r = "sge" -> "slt" [] r = "sgt" -> "sle" [] r = "sle" -> "sgt"
ConOk(st, want, r) ==
  LET got == [rel |-> r.rel, l |-> r.l, r |-> r.r] IN
  /\ (got.l.w = 0) = (got.r.w = 0)
  /\ got.l.w # 0 => Sound(st, got.l) /\ Sound(st, got.r)
  /\ \A i \in 1..Len(st.asg) : EvalCon(got, st.asg[i]) = EvalCon(want, st.asg[i])
  /\ Ident(st.cons, r.id, got)
  /\ r.t = (got.l.w = 0 /\ got.rel = "eq") /\ r.f = (got.l.w = 0 /\ got.rel = "ne") /\ r.c = (got.l.w = 0)
  /\ SetOf(r.vars) = Vars(got.l) \cup Vars(got.r) /\ SetOf(r.bvars) = SetOf(r.vars)
Allowed0(st, e) ==
  LET r == e.r IN
  CASE Moves(e) -> /\ Sound(st, r.t) /\ SameMeaning(st, r.t, Val(st, e))
                   /\ Ident(st.terms, r.id, r.t)
                   /\ SetOf(r.vars) = Vars(r.t) /\ Vars(r.t) \subseteq Vars(Val(st, e))
                   /\ r.const = (r.t.o = "const") /\ r.hash
    [] e.op = "con" -> ConOk(st, [rel |-> e.rel, l |-> st.reg[e.a], r |-> st.reg[e.b]], r)
    [] e.op = "tcon" -> ConOk(st, TrueCon(e.b), r)
    [] e.op = "rel" -> r.inv = RelInv(e.rel) /\ r.signed = (e.rel \in {"slt", "sle", "sgt", "sge"}) /\ r.strict = (e.rel \in {"ne", "ult", "ugt", "slt", "sgt"})
    \* one strict order, consistent with identity
    [] e.op = "ord" -> r.eq = (r.ida = r.idb) /\ (IF r.eq THEN ~r.lt /\ ~r.gt ELSE r.lt # r.gt)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Allowed0(st, e)
Learn(known, id, t) == IF id > Len(known) THEN Append(known, t) ELSE known
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF Moves(e) THEN [st EXCEPT !.reg[e.d] = Val(st, e), !.terms = Learn(st.terms, e.r.id, e.r.t)]
  ELSE IF e.op \in {"con", "tcon"} THEN [st EXCEPT !.cons = Learn(st.cons, e.r.id, [rel |-> e.r.rel, l |-> e.r.l, r |-> e.r.r])]
  ELSE st
=============================================================================
