--------------------------------- MODULE Box ---------------------------------
(* Evaluation of polynomials over boxes, and contraction of one interval of a *)
(* box with a constraint (C14).  Every command carries points of the box.     *)
EXTENDS Integers, Sequences, FiniteSets, Q, Poly, IvlLib
Begin(e) == [nv |-> e.nv, types |-> e.types]
Throws(st, e) == FALSE
InBox(pt, box) == \A i \in DOMAIN pt : In(pt[i], Abs(box[i]))
RelHolds(rel, q) == CASE rel = "eq" -> q = "0" [] rel = "lt" -> QLt(q, "0") [] rel = "le" -> QLe(q, "0") [] rel = "gt" -> QGt(q, "0") [] rel = "ge" -> QGe(q, "0")
IntOk(st, pt) == \A i \in DOMAIN pt : st.types[i] = "int" => QIsInt(pt[i])
Sol(st, c, pt) == InBox(pt, c.box) /\ IntOk(st, pt) /\ RelHolds(c.rel, PEval(st.nv, PRead(c.p), pt))
Pre(st, c) == CASE c.op = "eval" -> \A i \in DOMAIN c.pts : InBox(c.pts[i], c.box)
                [] c.op = "contract" -> \A i \in DOMAIN c.pts : Sol(st, c, c.pts[i])
                [] OTHER -> TRUE
\* Which comparisons with zero every element, or no element, of an interval meets.
Signs(X) == {s \in {"-1", "0", "1"} : CASE s = "0" -> In("0", X) [] s = "-1" -> X.lt = "I" \/ QLt(X.l, "0") [] s = "1" -> X.ut = "I" \/ QLt("0", X.u)}
SignHolds(rel, s) == IF rel = "ne" THEN s # "0" ELSE RelHolds(rel, s)
Decision(rel, X) == IF \A s \in Signs(X) : SignHolds(rel, s) THEN "yes" ELSE IF \A s \in Signs(X) : ~SignHolds(rel, s) THEN "no" ELSE "?"
Wires(l) == {Abs(l[i]) : i \in DOMAIN l}
Ok(st, e) ==
  CASE e.op = "eval" -> \A i \in DOMAIN e.pts : In(PEval(st.nv, PRead(e.p), e.pts[i]), Abs(e.r))
    [] e.op = "contract" ->
         /\ \A i \in DOMAIN e.pts : \E k \in DOMAIN e.r : In(e.pts[i][e.v], Abs(e.r[k]))
         /\ e.sub => \A k \in DOMAIN e.r : Sub(Abs(e.r[k]), Abs(e.box[e.v]))
    [] e.op = "decide" -> IsE(Abs(e.i)) \/ e.r = Decision(e.rel, Abs(e.i))
    [] e.op = "normalize" -> SameSet(Wires(e.l), Wires(e.r))
Allowed(st, e) == Pre(st, e) /\ Ok(st, e)
After(st, e) == st
=============================================================================
