--------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* Finite-field numbers (C18).  A register holds an element: f = 0 a       *)
(* number not yet bound to a field (an integer), f > 0 the residue class   *)
(* of n modulo the size of field f, n being the standard representative.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Q, TLC
Size(st, f) == st.sz[f]
Cls(st, f, n) == [f |-> f, n |-> IF f = 0 THEN n ELSE ZModF(n, Size(st, f))]
Begin(e) == [sz |-> [i \in 1..Len(e.fields) |-> QPow(QOfInt(e.fields[i][1]), e.fields[i][2])],
             pr |-> [i \in 1..Len(e.fields) |-> QOfInt(e.fields[i][1])],
             reg |-> [i \in 1..e.k |-> [f |-> 0, n |-> "0"]]]
Throws(st, e) == FALSE
\* The field of a result: operands of the same field, or one without a field.
Mix(x, y) == x.f = 0 \/ y.f = 0 \/ x.f = y.f
Fld(x, y) == IF x.f = 0 THEN y.f ELSE x.f
Op(g, m, n) == CASE g = "add" -> QAdd(m, n) [] g = "sub" -> QSub(m, n) [] g = "mul" -> QMul(m, n)
Bin(st, g, x, y) == Cls(st, Fld(x, y), Op(g, x.n, y.n))
\* The inverse by Euclid: u with u * a = 1 modulo m.
RECURSIVE Eu(_, _, _, _)
Eu(a, m, u, v) == IF m = "0" THEN [g |-> a, u |-> u] ELSE LET q == ZQuoF(a, m) IN Eu(m, ZModF(a, m), v, QSub(u, QMul(q, v)))
Inv(st, x) == Cls(st, x.f, Eu(x.n, Size(st, x.f), "1", "0").u)
Unit(st, x) == x.f # 0 /\ ZModF(x.n, st.pr[x.f]) # "0"
RECURSIVE Pow(_, _, _)
Pow(st, x, n) == IF n = 0 THEN Cls(st, x.f, "1") ELSE Bin(st, "mul", x, Pow(st, x, n - 1))
R(st, i) == st.reg[i]
Pre(st, c) ==
  CASE c.op \in {"bin", "inp"} -> Mix(R(st, c.a), R(st, c.b))
    [] c.op = "inv" -> Unit(st, R(st, c.a))
    [] c.op \in {"div", "divin"} -> Unit(st, R(st, c.b)) /\ Mix(R(st, c.a), R(st, c.b))
    [] c.op = "eq" -> R(st, c.a).f = R(st, c.b).f
    [] c.op = "eqz" -> c.how = "Z" => R(st, c.a).f # 0
    [] OTHER -> TRUE
\* The register that changes and its new value.
Dest(c) == IF c.op \in {"inp", "inpz", "divin", "inc", "dec", "norm"} THEN c.a ELSE c.d
Val(st, c) ==
  CASE c.op = "new" -> Cls(st, c.f, c.n)
    [] c.op \in {"bin", "inp"} -> Bin(st, c.g, R(st, c.a), R(st, c.b))
    [] c.op \in {"binz", "inpz"} -> Bin(st, c.g, R(st, c.a), [f |-> 0, n |-> c.n])
    [] c.op = "zbin" -> Bin(st, c.g, [f |-> 0, n |-> c.n], R(st, c.a))
    [] c.op = "inc" -> Bin(st, "add", R(st, c.a), [f |-> 0, n |-> "1"])
    [] c.op = "dec" -> Bin(st, "sub", R(st, c.a), [f |-> 0, n |-> "1"])
    [] c.op \in {"copy", "norm"} -> R(st, c.a)
    [] c.op = "neg" -> Cls(st, R(st, c.a).f, QNeg(R(st, c.a).n))
    [] c.op = "inv" -> Inv(st, R(st, c.a))
    [] c.op \in {"div", "divin"} -> Bin(st, "mul", R(st, c.a), Inv(st, R(st, c.b)))
    [] c.op = "pow" -> Pow(st, R(st, c.a), c.n)
Moves(c) == c.op \notin {"eq", "eqz", "un", "mod", "begin", "togf"}
\* A representative in the symmetric range denotes x.
Rep(st, x, r) == /\ r.f = x.f
                 /\ IF x.f = 0 THEN r.n = x.n
                    ELSE ZModF(r.n, Size(st, x.f)) = x.n /\ QLe(QAbs(r.n), ZQuoF(Size(st, x.f), "2"))
Text(st, x, r) == r.str = "(" \o r.n \o ") mod " \o (IF x.f = 0 THEN "?" ELSE Size(st, x.f))
Ones(x) == x.n = "1"
Allowed0(st, e) ==
  LET r == e.r IN
  CASE e.op = "eq" -> LET b == R(st, e.a).n = R(st, e.b).n IN r.eq = b /\ r.ne = ~b
    [] e.op = "eqz" -> LET b == Cls(st, R(st, e.a).f, e.n) = R(st, e.a) IN r.eq = b /\ r.ne = ~b /\ r.req = b /\ r.rne = ~b
    [] e.op = "un" -> LET x == R(st, e.a) IN
                      /\ Rep(st, x, r) /\ Text(st, x, r)
                      /\ r.zero = (x.n = "0") /\ r.fzero = r.zero
                      /\ (x.f = 0 \/ Size(st, x.f) # "2") => (r.one = Ones(x) /\ r.unit = r.one /\ r.fone = r.one)
    [] e.op = "mod" -> /\ ZModF(r.n, Size(st, e.f)) = ZModF(e.n, Size(st, e.f)) /\ QLe(QAbs(r.n), ZQuoF(Size(st, e.f), "2"))
                       /\ r.size = Size(st, e.f) /\ r.same
    \* taking an element to another field takes its representative along
    [] e.op = "togf" -> LET x == R(st, e.a)  from == [n |-> r.from.n, f |-> r.from.f] IN
                        Rep(st, x, from) /\ Rep(st, Cls(st, e.f, from.n), [n |-> r.n, f |-> r.f])
    [] OTHER -> Rep(st, Val(st, e), r)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Allowed0(st, e)
After(st, e) ==
  IF "skip" \in DOMAIN e THEN st
  ELSE IF e.op = "togf" THEN [st EXCEPT !.reg[e.d] = Cls(st, e.f, e.r.from.n)]
  ELSE IF Moves(e) THEN [st EXCEPT !.reg[Dest(e)] = Val(st, e)] ELSE st
=============================================================================
