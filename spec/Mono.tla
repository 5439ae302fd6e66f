-------------------------------- MODULE Mono --------------------------------
(***************************************************************************)
(* Monomials and terms.  The state holds the live monomials in registers   *)
(* (as exponent vectors); releasing a register or churning through other   *)
(* monomials does not change the others.  Hash-consing is visible as       *)
(* identity: two live monomials are the same object iff they are equal.    *)
(* Terms (monomial, coefficient) and all comparisons are stateless.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder

Begin(e) == [nv |-> e.nv, types |-> e.types, regs |-> [i \in 1..e.k |-> MOne(e.nv)]]
Throws(st, e) == FALSE

MHalf(m) == [i \in 1..Len(m) |-> m[i] \div 2]
MEven(m) == \A i \in 1..Len(m) : m[i] % 2 = 0
MInt(st, m) == \A i \in MVars(m) : SubSeq(st.types, i, i) = "i"

\* The ungraded order: the lists of (variable, exponent) compared lexicographically; a smaller
\* variable or a larger exponent makes the smaller monomial, a proper prefix is smaller.
LexLess(a, b) ==
  \E i \in 1..Len(a) :
    /\ a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
    /\ IF a[i] = 0 THEN \A j \in i..Len(a) : a[j] = 0
       ELSE IF b[i] = 0 THEN \E j \in (i + 1)..Len(a) : b[j] # 0
       ELSE a[i] > b[i]
Cmp3(less, a, b) == IF a = b THEN "E" ELSE IF less THEN "L" ELSE "G"
Lex3(a, b) == Cmp3(LexLess(a, b), a, b)
Gr3(a, b) == Cmp3(MLess(a, b), a, b)

\* Operations that put a monomial into register d.
Makers == {"mk", "mul", "mulv", "vmul", "vv", "gcd", "lcm", "lcmdiv", "pow", "powv", "dropv", "sep", "copy", "release"}
Value(st, c) ==
  LET R == st.regs  nv == st.nv IN
  CASE c.op = "mk" -> c.m
    [] c.op = "mul" -> MMul(R[c.a], R[c.b])
    [] c.op \in {"mulv", "vmul"} -> MMul(R[c.a], MVar(nv, c.v))
    [] c.op = "vv" -> MMul(MVar(nv, c.v), MVar(nv, c.w))
    [] c.op = "gcd" -> MGcd(R[c.a], R[c.b])
    [] c.op = "lcm" -> MLcm(R[c.a], R[c.b])
    [] c.op = "lcmdiv" -> MDiv(MLcm(R[c.a], R[c.b]), R[c.b])
    [] c.op = "pow" -> MPow(R[c.a], c.n)
    [] c.op = "powv" -> MPow(MVar(nv, c.v), c.n)
    [] c.op = "dropv" -> [R[c.a] EXCEPT ![c.v] = 0]
    [] c.op = "sep" -> [i \in 1..nv |-> IF R[c.a][i] > 0 THEN 1 ELSE 0]
    [] c.op = "copy" -> R[c.a]
    [] c.op = "release" -> MOne(nv)
\* Partial operations: the result, or none.
Partial == {"div", "divv", "sqrt"}
Exists(st, c) == CASE c.op = "div" -> MDivides(st.regs[c.b], st.regs[c.a])
                   [] c.op = "divv" -> st.regs[c.a][c.v] > 0
                   [] c.op = "sqrt" -> MEven(st.regs[c.a])
PValue(st, c) == CASE c.op = "div" -> MDiv(st.regs[c.a], st.regs[c.b])
                   [] c.op = "divv" -> MDiv(st.regs[c.a], MVar(st.nv, c.v))
                   [] c.op = "sqrt" -> MHalf(st.regs[c.a])
\* Members of a null monomial do not exist; the gcd with null is documented to be the other one.
NeedsA == {"sep", "dropv", "divv", "sqrt", "gcd", "divisible", "div", "lcmdiv"}
Pre(st, c) == /\ (c.op \in NeedsA => st.regs[c.a] # MOne(st.nv))
              /\ (c.op = "gcd" => st.regs[c.b] # MOne(st.nv))

\* A result object: its exponents, and which registers hold an equal / the same / an equally hashed monomial.
SetOf(s) == {s[i] : i \in 1..Len(s)}
ResOk(st, r, m) ==
  /\ r.m = m
  /\ SetOf(r.eq) = {i \in 1..Len(st.regs) : st.regs[i] = m}
  /\ r.same = r.eq
  /\ SetOf(r.eq) \subseteq SetOf(r.hash)
  /\ r.deg = MDeg(m)

ViewOk(st, m, r) ==
  LET nv == st.nv IN
  /\ r.m = m /\ r.deg = MDeg(m) /\ r.nr = Cardinality(MVars(m))
  /\ r.linear = (MDeg(m) = 1) /\ r.atmost = (MDeg(m) <= 1) /\ r.square = MEven(m)
  /\ r.int = MInt(st, m)
  /\ \A i \in 1..nv : r.has[i] = (m[i] > 0) /\ r.exp[i] = m[i] /\ r.only[i] = (MVars(m) \subseteq {i})
  /\ SetOf(r.vars) = MVars(m) /\ Len(r.vars) = Cardinality(MVars(m))
  /\ \A i \in 1..(Len(r.vars) - 1) : r.vars[i] < r.vars[i + 1]

\* The relations r of two items whose order is given by less/equal.
RelOk(r, lt, eq) ==
  /\ r.eq = eq /\ r.ne = ~eq /\ r.lt = lt /\ r.le = (lt \/ eq) /\ r.gt = (~lt /\ ~eq) /\ r.ge = ~lt
CmpOk(st, a, b, r) ==
  /\ RelOk(r.rel, MLess(a, b), a = b)
  /\ r.gr = Gr3(a, b) /\ r.lex = Lex3(a, b)
  /\ r.grless = MLess(a, b) /\ r.greq = (a = b) /\ r.lexless = LexLess(a, b) /\ r.lexeq = (a = b)
  /\ r.stdless = MLess(a, b)
  /\ r.tgr = Gr3(a, b) /\ r.tgrless = MLess(a, b) /\ r.tlexless = LexLess(a, b) /\ r.tgreq = (a = b)
  /\ r.moneq = (a = b) /\ r.monless = MLess(a, b)
CmpVOk(a, v, r) ==
  /\ RelOk(r.rel, MLess(a, v), a = v) /\ RelOk(r.rev, MLess(v, a), a = v)
  /\ r.gr = Gr3(a, v) /\ r.lex = Lex3(a, v)

\* Terms: x = <<monomial, coefficient>>; ordered by monomial, then coefficient.
TLess(x, y) == IF x[1] = y[1] THEN QLt(x[2], y[2]) ELSE MLess(x[1], y[1])
TMul(nv, x, y) == IF x[2] = "0" \/ y[2] = "0" THEN <<MOne(nv), "0">> ELSE <<MMul(x[1], y[1]), QMul(x[2], y[2])>>
\* Zero terms may carry any monomial.
TSame(r, t) == IF t[2] = "0" THEN r[2] = "0" ELSE r = t
TermOk(st, e) ==
  LET nv == st.nv  x == e.x  y == e.y  r == e.r IN
  CASE e.op = "tmul" -> /\ TSame(r.mul, TMul(nv, x, y)) /\ TSame(r.mulin, TMul(nv, x, y))
                        /\ TSame(r.mulc, TMul(nv, x, <<MOne(nv), y[2]>>))
                        /\ TSame(r.mulm, TMul(nv, x, <<y[1], "1">>))
                        /\ TSame(r.mulv, TMul(nv, x, <<MVar(nv, e.v), "1">>))
                        /\ TSame(r.neg, <<x[1], QNeg(x[2])>>)
    [] e.op = "tdiv" -> \* y # 0
         /\ r.ok = MDivides(y[1], x[1]) /\ r.ok => TSame(r.q, <<MDiv(x[1], y[1]), QDiv(x[2], y[2])>>)
         /\ r.mok = MDivides(y[1], x[1]) /\ r.mok => TSame(r.mq, <<MDiv(x[1], y[1]), x[2]>>)
         /\ r.vok = (x[1][e.v] > 0) /\ r.vok => TSame(r.vq, <<MDiv(x[1], MVar(nv, e.v)), x[2]>>)
         /\ r.divisible = MDivides(y[1], x[1])
         /\ TSame(r.cq, <<x[1], QDiv(x[2], y[2])>>)
    [] e.op = "tview" ->
         /\ r.deg = MDeg(x[1]) /\ r.const = (x[1] = MOne(nv)) /\ r.one = (x = <<MOne(nv), "1">>) /\ r.zero = (x[2] = "0")
         /\ r.linear = (MDeg(x[1]) <= 1) /\ r.nr = Cardinality(MVars(x[1])) /\ r.single = (MDeg(x[1]) = 1)
         /\ r.square = (QSgn(x[2]) >= 0 /\ MEven(x[1]))
         /\ r.int = (QIsInt(x[2]) /\ MInt(st, x[1]))
         /\ \A i \in 1..nv : r.has[i] = (x[1][i] > 0) /\ r.only[i] = (MVars(x[1]) \subseteq {i})
         /\ TSame(r.pow, <<MPow(x[1], e.n), QPow(x[2], e.n)>>)
         /\ r.sqrtok = (MEven(x[1]) /\ e.root # "none")
         /\ r.sqrtok => TSame(r.sqrt, <<MHalf(x[1]), e.root>>)
         /\ TSame(r.dropv, <<[x[1] EXCEPT ![e.v] = 0], x[2]>>)
    [] e.op = "tcmp" ->
         /\ RelOk(r.rel, TLess(x, y), x = y)
         /\ RelOk(r.m, TLess(x, <<y[1], "1">>), x = <<y[1], "1">>)
         /\ RelOk(r.mr, TLess(<<y[1], "1">>, x), x = <<y[1], "1">>)
         /\ LET v == <<MVar(nv, e.v), "1">> IN RelOk(r.v, TLess(x, v), x = v) /\ RelOk(r.vr, TLess(v, x), x = v)
         /\ LET c == <<MOne(nv), y[2]>> IN RelOk(r.c, TLess(x, c), x = c) /\ RelOk(r.cr, TLess(c, x), x = c)
         /\ (x = y) => r.hash

Allowed(st, e) ==
  CASE e.op \in Makers -> ResOk(st, e.r, Value(st, e))
    [] e.op \in Partial -> /\ e.r.ok = Exists(st, e)
                           /\ e.r.ok => ResOk(st, e.r.res, PValue(st, e))
    [] e.op = "divisible" -> e.r = MDivides(st.regs[e.b], st.regs[e.a])
    [] e.op = "view" -> ViewOk(st, st.regs[e.a], e.r)
    [] e.op = "dump" -> e.r = st.regs
    [] e.op = "churn" -> e.r
    [] e.op = "cmp" -> CmpOk(st, st.regs[e.a], st.regs[e.b], e.r)
    [] e.op = "cmpv" -> CmpVOk(st.regs[e.a], MVar(st.nv, e.v), e.r)
    [] e.op = "ecmp" -> CmpOk(st, e.x[1], e.y[1], e.r)
    [] e.op = "ecmpv" -> CmpVOk(e.x[1], MVar(st.nv, e.v), e.r)
    [] OTHER -> TermOk(st, e)

After(st, e) ==
  IF e.op \in Makers THEN [st EXCEPT !.regs[IF e.op = "release" THEN e.a ELSE e.d] = Value(st, e)]
  ELSE IF e.op \in Partial /\ Exists(st, e) THEN [st EXCEPT !.regs[e.d] = PValue(st, e)]
  ELSE st
=============================================================================
