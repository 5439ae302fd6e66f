--------------------------------- MODULE MP ---------------------------------
(***************************************************************************)
(* A register machine over multivariate polynomials.  The state holds the  *)
(* mathematical value of every register; a command determines the values   *)
(* afterwards, whatever construction, representation or history the        *)
(* objects have.  The order of polynomials is an unknown total order: the  *)
(* state remembers the pairs that have been observed.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, MOrder

Begin(e) == [nv |-> e.nv, regs |-> [i \in 1..e.k |-> PZero], ord |-> {}, types |-> IF "types" \in DOMAIN e THEN e.types ELSE ""]
Throws(st, e) == FALSE

Ring(f, p, q) == CASE f = "add" -> PAdd(p, q) [] f = "sub" -> PSub(p, q) [] f = "mul" -> PMul(p, q)

\* The operand of kind k ("term", "mono", "var", "coeff") as a polynomial.
AsPoly(nv, k, x, v) ==
  CASE k = "term" -> PMono(x[1], x[2])
    [] k = "mono" -> PMono(x[1], "1")
    [] k = "var"  -> PVar(nv, v)
    [] k = "coeff" -> PConst(nv, x[2])
KindOf(c) == CASE c = "t" -> "term" [] c = "m" -> "mono" [] c = "v" -> "var" [] c = "c" -> "coeff"

\* A single subtrahend is negated.
RECURSIVE NFold(_, _, _)
NFold(f, regs, as) == IF Len(as) = 1 THEN regs[as[1]]
                     ELSE Ring(f, NFold(f, regs, SubSeq(as, 1, Len(as) - 1)), regs[as[Len(as)]])

NAry(f, regs, as) == IF f = "sub" /\ Len(as) = 1 THEN PNeg(regs[as[1]]) ELSE NFold(f, regs, as)

Mutators == {"lit", "bin", "inp", "inpx", "binx", "xy", "neg", "copy", "move", "pow", "pownaive", "divc",
             "divcx", "subprod", "addterm", "strip", "tail", "order", "unorder", "nary", "coeffv", "lcoeffv"}
InPlace == {"inp", "inpx", "divc", "subprod", "addterm", "strip", "order", "unorder"}
Target(c) == IF c.op \in InPlace THEN c.a ELSE c.d

\* The polynomial a mutating command produces.
Value(st, c) ==
  LET R == st.regs  nv == st.nv IN
  CASE c.op = "lit" -> PSumList(c.p)
    [] c.op \in {"bin", "inp"} -> Ring(c.f, R[c.a], R[c.b])
    [] c.op = "inpx" -> Ring(c.f, R[c.a], AsPoly(nv, c.k, c.x, c.v))
    [] c.op = "binx" -> LET x == AsPoly(nv, c.k, c.x, c.v)
                        IN  IF c.side = "l" THEN Ring(c.f, x, R[c.a]) ELSE Ring(c.f, R[c.a], x)
    [] c.op = "xy" -> Ring(c.f, AsPoly(nv, c.k1, c.x, c.v), AsPoly(nv, c.k2, c.y, c.v))
    [] c.op = "neg" -> PNeg(R[c.a])
    [] c.op \in {"copy", "move", "order", "unorder"} -> R[c.a]
    [] c.op \in {"pow", "pownaive"} -> PPow(nv, R[c.a], c.n)
    [] c.op \in {"divc", "divcx"} -> PScale(QDiv("1", c.c), R[c.a])
    [] c.op = "subprod" -> PSub(R[c.a], PMul(PMono(c.x[1], c.x[2]), R[c.b]))
    [] c.op = "addterm" -> PAdd(R[c.a], PMono(c.x[1], c.x[2]))
    [] c.op \in {"strip", "tail"} -> TailOf(R[c.a])
    [] c.op = "nary" -> NAry(c.f, R, c.as)
    [] c.op = "coeffv" -> PCoeffIn(R[c.a], c.v, c.e)
    [] c.op = "lcoeffv" -> PCoeffIn(R[c.a], c.v, PDegIn(R[c.a], c.v))

\* Well-defined only for non-zero operands.
Pre(st, c) == /\ c.op \in {"strip", "tail"} => ~PIsZero(st.regs[c.a])
              /\ c.op \in {"divc", "divcx"} => c.c # "0"

\* A dumped polynomial starts with its constant term (if any) and ends with its leading term.
Canonical(nv, s, p) ==
  /\ PIs(nv, s, p)
  /\ s # <<>> => s[Len(s)][1] = LeadMon(p)
  /\ (MOne(nv) \in DOMAIN p) => s[1][1] = MOne(nv)

\* The six relations and what they say about the order of two values.
RelOk(r, eq) ==
  /\ r.eq = eq /\ r.ne = ~eq
  /\ eq => ~r.lt /\ ~r.gt
  /\ ~eq => r.lt # r.gt
  /\ r.le = (r.lt \/ eq) /\ r.ge = (r.gt \/ eq)
RelPairs(r, p, q) == IF r.lt THEN {<<p, q>>} ELSE IF r.gt THEN {<<q, p>>} ELSE {}
\* Adding the pairs to what is known keeps the order asymmetric and transitive on triples.
OrdOk(known, new) ==
  \A x \in new :
    /\ <<x[2], x[1]>> \notin known
    /\ \A y \in known : (y[1] = x[2]) => <<y[2], x[1]>> \notin known

ViewOk(st, a, r) ==
  LET p == st.regs[a]  nv == st.nv IN
  /\ r.nr = Cardinality(DOMAIN p) /\ r.size = r.nr
  /\ r.zero = PIsZero(p) /\ r.one = (p = PConst(nv, "1"))
  /\ r.const = PIsConst(p) /\ r.number = PIsConst(p)
  /\ r.var = (\E i \in 1..nv : p = PVar(nv, i))
  /\ r.linear = (PDeg(p) <= 1)
  /\ r.tdeg = PDeg(p)
  /\ r.cpart = PConstPart(nv, p) /\ r.hasct = (r.cpart # "0")
  /\ r.univ = (Cardinality(PVars(p)) <= 1)
  /\ \A i \in 1..nv : r.deg[i] = PDegIn(p, i) /\ r.has[i] = (i \in PVars(p))
  /\ {r.vars[i] : i \in 1..Len(r.vars)} = PVars(p) /\ Len(r.vars) = Cardinality(PVars(p))
  /\ ~PIsZero(p) => /\ r.lt = LeadTerm(p) /\ r.lm = LeadMon(p) /\ r.lc = LeadCoef(p)
                    /\ r.tt[1] \in DOMAIN p /\ r.tt[2] = p[r.tt[1]]
                    /\ (r.cpart # "0") => r.tt[1] = MOne(nv)
  /\ PIs(nv, r.ordered, p) /\ MSorted(r.ordered)
  /\ r.intval = \A m \in DOMAIN p : QIsInt(p[m]) /\ \A i \in MVars(m) : SubSeq(st.types, i, i) = "i"

Allowed(st, e) ==
  IF e.op \in Mutators THEN Canonical(st.nv, e.r, Value(st, e))
  ELSE CASE e.op = "dump" -> /\ Len(e.r) = Len(st.regs)
                             /\ \A i \in 1..Len(e.r) : Canonical(st.nv, e.r[i], st.regs[i])
         [] e.op = "cmp" -> LET p == st.regs[e.a]  q == st.regs[e.b] IN
                            /\ RelOk(e.r, p = q)
                            /\ e.r.eqto = (p = q)
                            /\ (p = q) => e.r.hash
                            /\ OrdOk(st.ord, RelPairs(e.r, p, q))
         [] e.op = "cmpx" -> LET p == st.regs[e.a]
                                 q == AsPoly(st.nv, e.k, e.x, e.v)
                                 l == IF e.side = "l" THEN q ELSE p
                                 r == IF e.side = "l" THEN p ELSE q IN
                            /\ RelOk(e.r, p = q)
                            /\ OrdOk(st.ord, RelPairs(e.r, l, r))
         [] e.op = "view" -> ViewOk(st, e.a, e.r)

After(st, e) ==
  IF e.op \in Mutators
    THEN LET new == [st.regs EXCEPT ![Target(e)] = Value(st, e)]
         IN  [st EXCEPT !.regs = IF e.op = "move" /\ e.a # e.d THEN [new EXCEPT ![e.a] = PZero] ELSE new]
  ELSE IF e.op = "cmp" THEN [st EXCEPT !.ord = @ \cup RelPairs(e.r, st.regs[e.a], st.regs[e.b])]
  ELSE IF e.op = "cmpx" THEN
       LET p == st.regs[e.a]
           q == AsPoly(st.nv, e.k, e.x, e.v)
       IN  [st EXCEPT !.ord = @ \cup (IF e.side = "l" THEN RelPairs(e.r, q, p) ELSE RelPairs(e.r, p, q))]
  ELSE st
=============================================================================
