------------------------------- MODULE QCheck -------------------------------
(* The overridden operators of Q agree with their definitions in QPure.    *)
EXTENDS Q, TLC
P == INSTANCE QPure
VARIABLES a, b

Small == {"0", "1", "-1", "2", "-12", "13", "-2/3", "7/4"}
Big   == {"4294967297", "-99999999/10007"}
Grid  == Small \cup Big
Ints  == {x \in Grid : P!QIsInt(x)}
Init == a \in Grid /\ b \in Grid
Next == UNCHANGED <<a, b>>
Inv ==
  /\ QAdd(a, b) = P!QAdd(a, b) /\ QSub(a, b) = P!QSub(a, b) /\ QMul(a, b) = P!QMul(a, b)
  /\ QCmp(a, b) = P!QCmp(a, b) /\ QLt(a, b) = P!QLt(a, b) /\ QLe(a, b) = P!QLe(a, b)
  /\ QNeg(a) = P!QNeg(a) /\ QAbs(a) = P!QAbs(a) /\ QSgn(a) = P!QSgn(a)
  /\ QNum(a) = P!QNum(a) /\ QDen(a) = P!QDen(a) /\ QIsInt(a) = P!QIsInt(a)
  /\ QFloor(a) = P!QFloor(a) /\ QCeil(a) = P!QCeil(a) /\ QTrunc(a) = P!QTrunc(a)
  /\ b # "0" => QDiv(a, b) = P!QDiv(a, b)
  /\ \A n \in 0..3 : QPow(a, n) = P!QPow(a, n)
  /\ (a \in Ints /\ b \in Ints /\ b # "0") =>
        /\ ZQuoT(a, b) = P!ZQuoT(a, b) /\ ZRemT(a, b) = P!ZRemT(a, b)
        /\ ZQuoF(a, b) = P!ZQuoF(a, b) /\ ZModF(a, b) = P!ZModF(a, b)
        /\ ZGcd(a, b) = P!ZGcd(a, b)
  /\ (a \in Ints /\ b \in Ints /\ QSgn(a) >= 0 /\ QSgn(b) >= 0) =>
        /\ ZAnd(a, b) = P!ZAnd(a, b) /\ ZOr(a, b) = P!ZOr(a, b) /\ ZXor(a, b) = P!ZXor(a, b)
ASSUME \A n \in -12..12 \cup {1000, -2147483647, 2147483647} :
         QOfInt(n) = P!QOfInt(n) /\ QToInt(QOfInt(n)) = n /\ P!QToInt(QOfInt(n)) = n
=============================================================================
