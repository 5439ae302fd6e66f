------------------------------- MODULE IvlLib -------------------------------
(***************************************************************************)
(* Intervals of rationals as sets.  An interval is Empty or a record of    *)
(* its two ends; an end has a type ("S" not attained, "W" attained, "I"    *)
(* infinite) and a number ("0" if infinite).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q
Empty == [lt |-> "E", l |-> "0", ut |-> "E", u |-> "0"]
Mk(l, lt, u, ut) ==
  IF lt # "I" /\ ut # "I" /\ (QLt(u, l) \/ (l = u /\ ~(lt = "W" /\ ut = "W"))) THEN Empty
  ELSE [lt |-> lt, l |-> IF lt = "I" THEN "0" ELSE l, ut |-> ut, u |-> IF ut = "I" THEN "0" ELSE u]
\* Wire form: <<lower, type, upper, type>>.
Abs(w) == Mk(w[1], w[2], w[3], w[4])
Full == Mk("0", "I", "0", "I")
Pt(c) == Mk(c, "W", c, "W")
IsE(X) == X.lt = "E"
In(x, X) == /\ ~IsE(X)
            /\ X.lt = "I" \/ QLt(X.l, x) \/ (X.lt = "W" /\ X.l = x)
            /\ X.ut = "I" \/ QLt(x, X.u) \/ (X.ut = "W" /\ X.u = x)
\* End comparisons: is end a at or below end b?
LoLe(X, Y) == X.lt = "I" \/ (Y.lt # "I" /\ (QLt(X.l, Y.l) \/ (X.l = Y.l /\ (X.lt = "W" \/ Y.lt = "S"))))
UpLe(X, Y) == Y.ut = "I" \/ (X.ut # "I" /\ (QLt(X.u, Y.u) \/ (X.u = Y.u /\ (Y.ut = "W" \/ X.ut = "S"))))
Sub(X, Y) == IsE(X) \/ (~IsE(Y) /\ LoLe(Y, X) /\ UpLe(X, Y))
Cap(X, Y) == IF IsE(X) \/ IsE(Y) THEN Empty
             ELSE LET a == IF LoLe(X, Y) THEN Y ELSE X  b == IF UpLe(X, Y) THEN X ELSE Y IN Mk(a.l, a.lt, b.u, b.ut)
Hull(X, Y) == IF IsE(X) THEN Y ELSE IF IsE(Y) THEN X
              ELSE LET a == IF LoLe(X, Y) THEN X ELSE Y  b == IF UpLe(X, Y) THEN Y ELSE X IN Mk(a.l, a.lt, b.u, b.ut)
\* The parts of the complement.
Below(X) == IF IsE(X) THEN Full ELSE IF X.lt = "I" THEN Empty ELSE Mk("0", "I", X.l, IF X.lt = "W" THEN "S" ELSE "W")
Above(X) == IF IsE(X) THEN Empty ELSE IF X.ut = "I" THEN Empty ELSE Mk(X.u, IF X.ut = "W" THEN "S" ELSE "W", "0", "I")
\* Two intervals have a connected union.
Joined(X, Y) == IsE(X) \/ IsE(Y) \/
  LET L == IF LoLe(X, Y) THEN X ELSE Y  H == IF LoLe(X, Y) THEN Y ELSE X IN
  L.ut = "I" \/ H.lt = "I" \/ QLt(H.l, L.u) \/ (H.l = L.u /\ (H.lt = "W" \/ L.ut = "W"))
\* Normal form of a union of intervals: the set of its maximal intervals.
RECURSIVE Norm(_)
Norm(S) == LET T == {X \in S : ~IsE(X)} IN
           IF \E X, Y \in T : X # Y /\ Joined(X, Y)
             THEN LET p == CHOOSE p \in T \X T : p[1] # p[2] /\ Joined(p[1], p[2])
                  IN  Norm((T \ {p[1], p[2]}) \cup {Hull(p[1], p[2])})
             ELSE T
SameSet(A, B) == Norm(A) = Norm(B)
\* Set difference as a set of intervals.
Minus(X, Y) == {Cap(X, Below(Y)), Cap(X, Above(Y))}
SubUnion(S, T) == \A X \in Norm(S) : \E Y \in Norm(T) : Sub(X, Y)

\* ---- arithmetic: exact hulls of the images --------------------------------
Strict(a, b) == IF a = "I" \/ b = "I" THEN "I" ELSE IF a = "S" \/ b = "S" THEN "S" ELSE "W"
IAdd(X, Y) == IF IsE(X) \/ IsE(Y) THEN Empty
              ELSE Mk(QAdd(X.l, Y.l), Strict(X.lt, Y.lt), QAdd(X.u, Y.u), Strict(X.ut, Y.ut))
INeg(X) == IF IsE(X) THEN Empty ELSE Mk(QNeg(X.u), X.ut, QNeg(X.l), X.lt)
ISub(X, Y) == IAdd(X, INeg(Y))
\* Extended ends: sign of infinity (-1, 0 finite, 1), number, attained.
Lo(X) == [i |-> IF X.lt = "I" THEN -1 ELSE 0, v |-> X.l, at |-> X.lt = "W"]
Up(X) == [i |-> IF X.ut = "I" THEN 1 ELSE 0, v |-> X.u, at |-> X.ut = "W"]
ESgn(a) == IF a.i # 0 THEN a.i ELSE QSgn(a.v)
EMul(a, b) ==
  IF ESgn(a) = 0 \/ ESgn(b) = 0
    THEN [i |-> 0, v |-> "0", at |-> (ESgn(a) = 0 /\ a.at) \/ (ESgn(b) = 0 /\ b.at)]
  ELSE IF a.i # 0 \/ b.i # 0 THEN [i |-> ESgn(a) * ESgn(b), v |-> "0", at |-> FALSE]
  ELSE [i |-> 0, v |-> QMul(a.v, b.v), at |-> a.at /\ b.at]
ELt(a, b) == a.i < b.i \/ (a.i = 0 /\ b.i = 0 /\ QLt(a.v, b.v))
ESame(a, b) == a.i = b.i /\ a.v = b.v
\* The hull whose ends are the extreme ones of S.
FromEnds(S) ==
  LET lo == CHOOSE a \in S : \A b \in S : ~ELt(b, a)
      up == CHOOSE a \in S : \A b \in S : ~ELt(a, b)
      la == \E a \in S : ESame(a, lo) /\ a.at
      ua == \E a \in S : ESame(a, up) /\ a.at
      T(e, att) == IF e.i # 0 THEN "I" ELSE IF att THEN "W" ELSE "S"
  IN  Mk(lo.v, T(lo, la), up.v, T(up, ua))
IMul(X, Y) == IF IsE(X) \/ IsE(Y) THEN Empty ELSE FromEnds({EMul(a, b) : a \in {Lo(X), Up(X)}, b \in {Lo(Y), Up(Y)}})
\* Reciprocals of the positive / negative members.
Pos(X) == Cap(X, Mk("0", "S", "0", "I"))
Neg(X) == Cap(X, Mk("0", "I", "0", "S"))
RecipEnd(e, zs) == IF e.i # 0 THEN [i |-> 0, v |-> "0", at |-> FALSE]
                   ELSE IF e.v = "0" THEN [i |-> zs, v |-> "0", at |-> FALSE]
                   ELSE [i |-> 0, v |-> QDiv("1", e.v), at |-> e.at]
Recip1(X, s) == IF IsE(X) THEN Empty ELSE FromEnds({RecipEnd(Lo(X), s), RecipEnd(Up(X), s)})
RecipSet(X) == {Recip1(Neg(X), -1), Recip1(Pos(X), 1)}
\* {x / y : y # 0}
DivSet(X, Y) == {IMul(X, R) : R \in RecipSet(Y)}
\* {z : z * y = x}
RelDivSet(X, Y) == DivSet(X, Y) \cup (IF In("0", X) /\ In("0", Y) THEN {Full} ELSE {})
AbsEnd(e) == [i |-> IF e.i # 0 THEN 1 ELSE 0, v |-> QAbs(e.v), at |-> e.at]
IAbs(X) == IF IsE(X) THEN Empty
           ELSE FromEnds({AbsEnd(Lo(X)), AbsEnd(Up(X))} \cup (IF In("0", X) THEN {[i |-> 0, v |-> "0", at |-> TRUE]} ELSE {}))
MonoPow(X, n) == IF IsE(X) THEN Empty ELSE Mk(QPow(X.l, n), X.lt, QPow(X.u, n), X.ut)
IPow(X, n) == IF IsE(X) THEN Empty ELSE IF n = 0 THEN Pt("1") ELSE IF n % 2 = 1 THEN MonoPow(X, n) ELSE MonoPow(IAbs(X), n)
IScale(c, X) == IMul(Pt(c), X)
\* Integers among the members.
IntPart(X) == IF IsE(X) THEN Empty
  ELSE Mk(IF X.lt = "S" THEN QAdd(QFloor(X.l), "1") ELSE QCeil(X.l), IF X.lt = "I" THEN "I" ELSE "W",
          IF X.ut = "S" THEN QSub(QCeil(X.u), "1") ELSE QFloor(X.u), IF X.ut = "I" THEN "I" ELSE "W")
\* Images of floor and ceil: the smallest interval.
FloorImg(X) == IF IsE(X) THEN Empty
  ELSE Mk(QFloor(X.l), IF X.lt = "I" THEN "I" ELSE "W", IF X.ut = "S" THEN QSub(QCeil(X.u), "1") ELSE QFloor(X.u), IF X.ut = "I" THEN "I" ELSE "W")
CeilImg(X) == INeg(FloorImg(INeg(X)))
=============================================================================
