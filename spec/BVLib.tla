------------------------------- MODULE BVLib --------------------------------
(***************************************************************************)
(* The SMT-LIB theory of fixed-size bit vectors: a value is [w |-> width,  *)
(* n |-> the natural number it denotes].  Division by zero follows         *)
(* SMT-LIB 2.6.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Q
P2(k) == QPow("2", k)
V(w, n) == [w |-> w, n |-> ZModF(n, P2(w))]
Neg(x) == QGe(x.n, P2(x.w - 1))
SVal(x) == IF Neg(x) THEN QSub(x.n, P2(x.w)) ELSE x.n
Ones(w) == V(w, "-1")
BNot(x) == V(x.w, QSub("-1", x.n))
BNeg(x) == V(x.w, QNeg(x.n))
UDiv(x, y) == IF y.n = "0" THEN Ones(x.w) ELSE V(x.w, ZQuoT(x.n, y.n))
URem(x, y) == IF y.n = "0" THEN x ELSE V(x.w, ZRemT(x.n, y.n))
SDiv(x, y) == IF y.n = "0" THEN (IF Neg(x) THEN V(x.w, "1") ELSE Ones(x.w)) ELSE V(x.w, ZQuoT(SVal(x), SVal(y)))
SRem(x, y) == IF y.n = "0" THEN x ELSE V(x.w, ZRemT(SVal(x), SVal(y)))
\* the sign follows the divisor
SMod(x, y) == IF y.n = "0" THEN x ELSE LET r == ZRemT(SVal(x), SVal(y)) IN
              V(x.w, IF r # "0" /\ QSgn(r) # QSgn(SVal(y)) THEN QAdd(r, SVal(y)) ELSE r)
Far(x, y) == QGe(y.n, QOfInt(x.w))
Shl(x, y) == IF Far(x, y) THEN V(x.w, "0") ELSE V(x.w, QMul(x.n, P2(QToInt(y.n))))
Lshr(x, y) == IF Far(x, y) THEN V(x.w, "0") ELSE V(x.w, ZQuoF(x.n, P2(QToInt(y.n))))
Ashr(x, y) == IF Far(x, y) THEN (IF Neg(x) THEN Ones(x.w) ELSE V(x.w, "0")) ELSE V(x.w, ZQuoF(SVal(x), P2(QToInt(y.n))))
Concat(x, y) == V(x.w + y.w, QAdd(QMul(x.n, P2(y.w)), y.n))
Extract(x, h, l) == V(h - l + 1, ZQuoF(x.n, P2(l)))
RotL(x, i) == LET k == i % x.w IN V(x.w, QAdd(QMul(x.n, P2(k)), ZQuoF(x.n, P2(x.w - k))))
RotR(x, i) == LET k == i % x.w IN RotL(x, x.w - k)
RECURSIVE Rep(_, _)
Rep(x, i) == IF i = 1 THEN x ELSE Concat(x, Rep(x, i - 1))
ExtU(x, i) == V(x.w + i, x.n)
ExtS(x, i) == V(x.w + i, SVal(x))
B1(b) == V(1, IF b THEN "1" ELSE "0")
UnOps == {"not", "neg", "lrot", "rrot", "rep", "extu", "exts"}
BinOps == {"concat", "and", "or", "xor", "nand", "nor", "xnor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "smod", "eq", "shl", "lshr", "ashr"}
Un(o, x, i) ==
  CASE o = "not" -> BNot(x) [] o = "neg" -> BNeg(x) [] o = "lrot" -> RotL(x, i) [] o = "rrot" -> RotR(x, i)
    [] o = "rep" -> Rep(x, i) [] o = "extu" -> ExtU(x, i) [] o = "exts" -> ExtS(x, i)
Bin(o, x, y) ==
  CASE o = "concat" -> Concat(x, y)
    [] o = "and" -> V(x.w, ZAnd(x.n, y.n)) [] o = "or" -> V(x.w, ZOr(x.n, y.n)) [] o = "xor" -> V(x.w, ZXor(x.n, y.n))
    [] o = "nand" -> BNot(V(x.w, ZAnd(x.n, y.n))) [] o = "nor" -> BNot(V(x.w, ZOr(x.n, y.n))) [] o = "xnor" -> BNot(V(x.w, ZXor(x.n, y.n)))
    [] o = "add" -> V(x.w, QAdd(x.n, y.n)) [] o = "sub" -> V(x.w, QSub(x.n, y.n)) [] o = "mul" -> V(x.w, QMul(x.n, y.n))
    [] o = "udiv" -> UDiv(x, y) [] o = "sdiv" -> SDiv(x, y) [] o = "urem" -> URem(x, y) [] o = "srem" -> SRem(x, y) [] o = "smod" -> SMod(x, y)
    [] o = "eq" -> B1(x.n = y.n) [] o = "shl" -> Shl(x, y) [] o = "lshr" -> Lshr(x, y) [] o = "ashr" -> Ashr(x, y)
Rels == {"eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"}
Cmp(o, x, y) ==
  CASE o = "eq" -> x.n = y.n [] o = "ne" -> x.n # y.n
    [] o = "ult" -> QLt(x.n, y.n) [] o = "ule" -> QLe(x.n, y.n) [] o = "ugt" -> QGt(x.n, y.n) [] o = "uge" -> QGe(x.n, y.n)
    [] o = "slt" -> QLt(SVal(x), SVal(y)) [] o = "sle" -> QLe(SVal(x), SVal(y)) [] o = "sgt" -> QGt(SVal(x), SVal(y)) [] o = "sge" -> QGe(SVal(x), SVal(y))
UnW(o, w, i) == CASE o = "rep" -> w * i [] o \in {"extu", "exts"} -> w + i [] OTHER -> w
BinW(o, w, v) == CASE o = "concat" -> w + v [] o = "eq" -> 1 [] OTHER -> w
=============================================================================
