--------------------------------- MODULE Q ---------------------------------
(***************************************************************************)
(* Exact arithmetic used by all specifications.  The definitions are those *)
(* of QPure; java/Q.java overrides the operators of this module for speed, *)
(* and QCheck compares the two on a grid in every run.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL P == INSTANCE QPure

QAdd(a, b) == P!QAdd(a, b)
QSub(a, b) == P!QSub(a, b)
QMul(a, b) == P!QMul(a, b)
QDiv(a, b) == P!QDiv(a, b)
QNeg(a)    == P!QNeg(a)
QAbs(a)    == P!QAbs(a)
QSgn(a)    == P!QSgn(a)
QCmp(a, b) == P!QCmp(a, b)
QLt(a, b)  == P!QLt(a, b)
QLe(a, b)  == P!QLe(a, b)
QNum(a)    == P!QNum(a)
QDen(a)    == P!QDen(a)
QIsInt(a)  == P!QIsInt(a)
QFloor(a)  == P!QFloor(a)
QCeil(a)   == P!QCeil(a)
QTrunc(a)  == P!QTrunc(a)
ZQuoT(a, b) == P!ZQuoT(a, b)
ZRemT(a, b) == P!ZRemT(a, b)
ZQuoF(a, b) == P!ZQuoF(a, b)
ZModF(a, b) == P!ZModF(a, b)
ZGcd(a, b) == P!ZGcd(a, b)
QPow(a, n) == P!QPow(a, n)
QOfInt(n)  == P!QOfInt(n)
QToInt(a)  == P!QToInt(a)
ZAnd(a, b) == P!ZAnd(a, b)
ZOr(a, b)  == P!ZOr(a, b)
ZXor(a, b) == P!ZXor(a, b)

\* Derived, not overridden.
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QGt(a, b)  == QLt(b, a)
QGe(a, b)  == QLe(b, a)
ZDivides(a, b) == IF a = "0" THEN b = "0" ELSE ZModF(b, a) = "0"
ZLcm(a, b) == IF a = "0" \/ b = "0" THEN "0" ELSE QAbs(QDiv(QMul(a, b), ZGcd(a, b)))
=============================================================================
