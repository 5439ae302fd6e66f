---------------------------------- MODULE GB ---------------------------------
(* Groebner basis computations and ideals (C11).  gb is the reduced basis of  *)
(* what has been calculated, sched the polynomials added since then; inputs   *)
(* are all polynomials added, in order.  Sessions of kind ideal work on a     *)
(* plain list of generators, some of them eliminated.                         *)
EXTENDS GBLib
Begin(e) == [kind |-> e.kind, nv |-> e.nv, gb |-> {}, sched |-> {}, inputs |-> <<>>, const |-> FALSE, gens |-> <<>>, elim |-> {}]
Throws(st, e) == FALSE
Set(l) == {l[i] : i \in 1..Len(l)}
Pts(nv) == IF nv = 1 THEN {<<a>> : a \in {"-2", "-1", "0", "1", "2"}} ELSE [1..nv -> {"-1", "0", "1", "2"}]
Polys(nv, l) == {PRead(l[i]) : i \in 1..Len(l)}
Ok3(nv, l) == \A i \in 1..Len(l) : PWellFormed(nv, l[i])
Live(st) == {i \in 1..Len(st.gens) : i \notin st.elim}
LiveG(st) == {st.gens[i] : i \in Live(st)}
ReasonPolys(st, rs) == {st.inputs[i + 1] : i \in Set(rs)}
Pre(st, c) ==
  CASE c.op = "iadd" -> c.p # <<>>
    [] c.op = "ielim" -> c.i + 1 \in Live(st)
    [] c.op = "idiv" -> c.t[2] # "0"
    [] OTHER -> TRUE
ReasonsOk(st, l) == \A i \in 1..Len(l) :
  /\ Set(l[i]) \subseteq 0..(Len(st.inputs) - 1)
CalcOk(st, e) ==
  LET r == e.r  B == Polys(st.nv, r.basis)  F == st.gb \cup st.sched IN
  /\ Ok3(st.nv, r.basis) /\ Cardinality(B) = Len(r.basis) /\ r.const = (\E b \in B : PIsConst(b)) /\ r.left
  /\ IF st.kind = "std" THEN B = RefGB(F)
     ELSE /\ IsReducedGB(B) /\ \A f \in F : InIdeal(f, B)
          /\ \A a \in Pts(st.nv) : Zero(st.nv, F, a) => Zero(st.nv, B, a)
  \* every basis element follows from the inputs it names as its reasons
  /\ e.reasons =>
       /\ Len(r.reasons) = Len(r.basis)
       /\ \A i \in 1..Len(r.basis) :
            LET R == ReasonPolys(st, r.reasons[i]) IN
            /\ Set(r.reasons[i]) \subseteq 0..(Len(st.inputs) - 1)
            /\ IF st.kind = "std" THEN InIdeal(PRead(r.basis[i]), RefGB(R))
               ELSE \A a \in Pts(st.nv) : Zero(st.nv, R, a) => PEval(st.nv, PRead(r.basis[i]), a) = "0"
Ok(st, e) ==
  LET r == e.r IN
  CASE e.op = "calc" -> CalcOk(st, e)
    [] e.op = "redin" -> \* the scheduled polynomials now: with the basis they generate the same ideal
         LET S == Polys(st.nv, r.sched) IN
         /\ Ok3(st.nv, r.sched) /\ RefGB(st.gb \cup S) = RefGB(st.gb \cup st.sched)
         /\ \A s \in S : ~PIsZero(s) /\ LeadCoef(s) = "1" /\ NF(s, ListOf(st.gb)) = s
    [] e.op = "view" -> /\ Ok3(st.nv, r.basis) /\ Polys(st.nv, r.basis) = st.gb /\ r.orig = Len(st.inputs)
                        /\ r.linear = (\A b \in st.gb : \A m \in DOMAIN b : MDeg(m) <= 1)
    [] e.op = "red" -> PIs(st.nv, r.p, NF(PRead(e.p), ListOf(st.gb))) /\ r.occ = (PRead(e.p) # PRead(r.p))
    [] e.op = "iadd" -> r = Len(st.gens)
    [] e.op = "idiv" -> IF \E i \in Live(st) : MDivides(LeadMon(st.gens[i]), e.t[1])
                        THEN /\ r.found /\ r.i + 1 \in Live(st) /\ r.f[2] # "0"
                             \* adding the factor times the divisor removes the term
                             /\ LET g == st.gens[r.i + 1] IN MMul(r.f[1], LeadMon(g)) = e.t[1] /\ QAdd(QMul(r.f[2], LeadCoef(g)), e.t[2]) = "0"
                        ELSE ~r.found
    [] e.op = "ired" -> /\ PWellFormed(st.nv, r.p)
                        /\ \A m \in DOMAIN PRead(r.p) : \A g \in LiveG(st) : ~MDivides(LeadMon(g), m)
                        /\ InIdeal(PSub(PRead(e.p), PRead(r.p)), RefGB(LiveG(st)))
    [] e.op = "iview" -> /\ r.n = Len(st.gens) /\ Len(r.gens) = r.n /\ \A i \in 1..r.n : PIs(st.nv, r.gens[i], st.gens[i])
                         /\ Len(r.ord) = r.n /\ Set(r.ord) = 0..(r.n - 1)
                         /\ \A i \in 1..(r.n - 1) : ~MLess(LeadMon(st.gens[r.ord[i + 1] + 1]), LeadMon(st.gens[r.ord[i] + 1]))
    [] OTHER -> TRUE
Compact(st) == LET k == {i \in 1..Len(st.gens) : i \in Live(st)}
                   nth(n) == CHOOSE i \in k : Cardinality({j \in k : j <= i}) = n
               IN  [st EXCEPT !.gens = [n \in 1..Cardinality(k) |-> st.gens[nth(n)]], !.elim = {}]
Step(st, e) ==
  CASE e.op = "add" -> [st EXCEPT !.inputs = Append(@, PRead(e.p)), !.sched = @ \cup ({PRead(e.p)} \ {PZero})]
    [] e.op = "calc" -> [st EXCEPT !.gb = Polys(st.nv, e.r.basis), !.sched = {}]
    [] e.op = "redin" -> [st EXCEPT !.sched = Polys(st.nv, e.r.sched)]
    [] e.op = "reset" -> [st EXCEPT !.gb = {}]
    [] e.op = "iadd" -> [st EXCEPT !.gens = Append(@, PRead(e.p))]
    [] e.op = "ielim" -> [st EXCEPT !.elim = @ \cup {e.i + 1}]
    [] e.op \in {"icompact", "icopy"} -> Compact(st)
    [] e.op = "iclear" -> [st EXCEPT !.gens = <<>>, !.elim = {}]
    [] OTHER -> st
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE Step(st, e)
=============================================================================
