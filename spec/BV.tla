--------------------------------- MODULE BV ---------------------------------
(* Bit-vector values (C19): registers over the operations of BVLib.          *)
EXTENDS BVLib, TLC
Begin(e) == [i \in 1..e.k |-> V(1, "0")]
Throws(st, e) == FALSE
RECURSIVE BitsVal(_, _, _)
BitsVal(s, i, acc) == IF i > Len(s) THEN acc ELSE BitsVal(s, i + 1, QAdd(QMul(acc, "2"), s[i]))
NeedsDivisor == {"udiv", "sdiv", "urem", "srem", "smod"}
Pre(st, c) ==
  CASE c.op = "bin" -> /\ c.o # "concat" => st[c.a].w = st[c.b].w
                       /\ c.o \in NeedsDivisor => st[c.b].n # "0"
    [] c.op = "un" -> c.o = "rep" => c.i > 0
    [] c.op = "ext" -> c.l <= c.h /\ c.h < st[c.a].w
    [] c.op = "cmp" -> st[c.a].w = st[c.b].w
    [] OTHER -> TRUE
Val(st, c) ==
  CASE c.op = "int" -> V(c.w, c.n)
    [] c.op = "str" -> V(Len(c.s), BitsVal(c.s, 1, "0"))
    [] c.op = "un" -> Un(c.o, st[c.a], c.i)
    [] c.op = "bin" -> Bin(c.o, st[c.a], st[c.b])
    [] c.op = "ext" -> Extract(st[c.a], c.h, c.l)
    [] c.op = "flip" -> LET x == st[c.a]  b == ZModF(ZQuoF(x.n, P2(c.i % x.w)), "2") IN
                        V(x.w, IF b = "1" THEN QSub(x.n, P2(c.i % x.w)) ELSE QAdd(x.n, P2(c.i % x.w)))
RECURSIVE BitText(_, _)
BitText(n, w) == IF w = 0 THEN "" ELSE BitText(ZQuoF(n, "2"), w - 1) \o ZModF(n, "2")
Moves(c) == c.op \notin {"begin", "cmp", "view"}
Allowed0(st, e) ==
  LET r == e.r IN
  CASE e.op = "cmp" -> LET x == st[e.a]  y == st[e.b] IN r.eq = (x = y) /\ r.lt = QLt(x.n, y.n) /\ (x = y => r.hash)
    [] e.op = "view" -> LET x == st[e.a] IN
                        /\ r.zero = (x.n = "0") /\ r.str = "#b" \o BitText(x.n, x.w)
                        /\ r.bit = ZModF(ZQuoF(x.n, P2(e.i % x.w)), "2")
    [] OTHER -> r = Val(st, e)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Allowed0(st, e)
After(st, e) == IF "skip" \in DOMAIN e \/ ~Moves(e) THEN st ELSE [st EXCEPT ![IF e.op = "flip" THEN e.a ELSE e.d] = Val(st, e)]
=============================================================================
