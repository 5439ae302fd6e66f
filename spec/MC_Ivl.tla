------------------------------- MODULE MC_Ivl -------------------------------
(* The interval operators are decided pointwise: laws over all pairs of     *)
(* intervals with bounds of a small set, checked at the points of a grid.   *)
EXTENDS Ivl
CONSTANT Bs
VARIABLES X, Y, phase
All == {Mk(l, lt, u, ut) : l \in Bs, u \in Bs, lt \in {"S", "W", "I"}, ut \in {"S", "W", "I"}} \cup {Empty}
Grid == {"-3", "-2", "-3/2", "-1", "-1/2", "0", "1/2", "1", "3/2", "2", "3"}
Init == X \in All /\ Y = Empty /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ Y' \in All /\ X' = X
M(A) == {g \in Grid : In(g, A)}
InU(g, S) == \E A \in S : In(g, A)
\* An attained end is the image of members.
Witness(Z, img) == /\ Z.lt = "W" => Z.l \in img
                   /\ Z.ut = "W" => Z.u \in img
Img(f(_, _)) == {f(x, y) : x \in M(X), y \in M(Y)}
Laws == phase = 1 =>
  /\ \A z \in Img(QAdd) : In(z, IAdd(X, Y))
  /\ Witness(IAdd(X, Y), Img(QAdd))
  /\ \A z \in Img(QSub) : In(z, ISub(X, Y))
  /\ \A z \in Img(QMul) : In(z, IMul(X, Y))
  /\ Witness(IMul(X, Y), Img(QMul))
  /\ (IsE(X) \/ IsE(Y)) = IsE(IMul(X, Y))
  /\ IMul(X, Y) = IMul(Y, X) /\ IMul(INeg(X), Y) = INeg(IMul(X, Y))
  /\ \A x \in M(X), y \in M(Y) : y # "0" => InU(QDiv(x, y), DivSet(X, Y))
  /\ \A n \in 0..4 : /\ \A x \in M(X) : In(QPow(x, n), IPow(X, n))
                     /\ Witness(IPow(X, n), {QPow(x, n) : x \in M(X)})
                     /\ Sub(IPow(X, n), IF n = 0 THEN Full ELSE IMul(X, IPow(X, n - 1)))
  /\ \A x \in M(X) : In(QAbs(x), IAbs(X)) /\ In(QFloor(x), FloorImg(X)) /\ In(QCeil(x), CeilImg(X))
  /\ \A g \in Grid :
       /\ In(g, Cap(X, Y)) = (In(g, X) /\ In(g, Y))
       /\ (In(g, X) \/ In(g, Y)) => In(g, Hull(X, Y))
       /\ InU(g, Minus(X, Y)) = (In(g, X) /\ ~In(g, Y))
       /\ InU(g, Norm({X, Y})) = (In(g, X) \/ In(g, Y))
       /\ InU(g, {Below(X), Above(X)}) = ~In(g, X)
       /\ QIsInt(g) => In(g, IntPart(X)) = In(g, X)
  \* for these bounds the grid separates sets
  /\ Sub(X, Y) = (M(X) \subseteq M(Y) /\ (X.lt = "I" => (Y.lt = "I" \/ IsE(X))) /\ (X.ut = "I" => Y.ut = "I"))
  /\ Joined(X, Y) = (Cardinality(Norm({X, Y})) < 2)
  /\ (~IsE(X) /\ ~IsE(Y)) => /\ AllLt(X, Y) => \A x \in M(X), y \in M(Y) : QLt(x, y)
                             /\ AllLt(X, Y) \/ AllLt(Y, X) <=> IsE(Cap(X, Y))
  /\ \A rel \in {"lt", "le", "gt", "ge", "eq", "ne"} : ~IsE(X) => ~(AllSat(X, rel) /\ AllSat(X, Compl(rel)))
=============================================================================
