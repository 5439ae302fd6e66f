-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Number functions (C16) and parsing, printing, conversion (C17).         *)
(* Exact numbers are strings of Q.tla; t is the number type: "Z" and "Q"   *)
(* arbitrary precision, "S" 64-bit integers.  A text is a sequence of      *)
(* one-character strings.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, TLC
Begin(e) == [fact |-> 0]
Throws(st, e) == FALSE
S64Min == "-9223372036854775808"
S64Max == "9223372036854775807"
U64Max == "18446744073709551615"
InS(a) == QLe(S64Min, a) /\ QLe(a, S64Max)
InU64(a) == QLe("0", a) /\ QLe(a, U64Max)

\* ---- integer and rational functions ---------------------------------------
RECURSIVE BitsFrom(_, _, _)
BitsFrom(a, k, p) == IF QLt(a, p) THEN k ELSE BitsFrom(a, k + 1, QMul(p, "2"))
Bits(a) == BitsFrom(QAbs(a), 1, "2")
BitSize(t, a) == IF t = "Z" THEN Bits(a) ELSE Bits(QNum(a)) + Bits(QDen(a))
Gcd(a, b) == QDiv(ZGcd(QNum(a), QNum(b)), ZLcm(QDen(a), QDen(b)))
Lcm(a, b) == QDiv(ZLcm(QNum(a), QNum(b)), ZGcd(QDen(a), QDen(b)))
\* nearest integer
IsRound(r, a) == QIsInt(r) /\ QLe(QAbs(QSub(r, a)), "1/2")
IsSqrt(r, a) == QGe(r, "0") /\ QMul(r, r) = a
\* r = <<lo, hi>> encloses the non-negative n-th root of a
EnclosesRoot(r, a, n) == QGe(r[1], "0") /\ QLe(QPow(r[1], n), a) /\ QLe(a, QPow(r[2], n)) /\ QGe(r[2], "0")
RECURSIVE ISqrtBetween(_, _, _)
ISqrtBetween(a, lo, hi) == IF QLe(QSub(hi, lo), "1") THEN lo
  ELSE LET m == ZQuoF(QAdd(lo, hi), "2") IN IF QLe(QMul(m, m), a) THEN ISqrtBetween(a, m, hi) ELSE ISqrtBetween(a, lo, m)
ISqrt(a) == ISqrtBetween(a, "0", QAdd(a, "1"))
IsSquareZ(a) == QGe(a, "0") /\ QPow(ISqrt(a), 2) = a
IsSquare(a) == QGe(a, "0") /\ IsSquareZ(QNum(a)) /\ IsSquareZ(QDen(a))
QSqrt(a) == QDiv(ISqrt(QNum(a)), ISqrt(QDen(a)))
Un(t, a, r) ==
  /\ r.abs = QAbs(a) /\ r.zero = (a = "0") /\ r.one = (a = "1") /\ r.sgn = QSgn(a) /\ r.int = QIsInt(a)
  /\ t # "S" => /\ r.floor = QFloor(a) /\ r.ceil = QCeil(a) /\ IsRound(r.round, a)
                /\ r.num = QNum(a) /\ r.den = QDen(a) /\ r.bits = BitSize(t, a) /\ r.pos = (QSgn(a) = 1) /\ r.neg = (QSgn(a) = -1)
Cmp(a, b, r) ==
  LET c == QCmp(a, b) IN
  r.eq = (c = 0) /\ r.ne = (c # 0) /\ r.lt = (c < 0) /\ r.le = (c <= 0) /\ r.gt = (c > 0) /\ r.ge = (c >= 0) /\ (c = 0 => r.hash)
\* integer division: truncating quotient and remainder, either convention for divide
DivOk(t, a, b, r) ==
  /\ r.quo = ZQuoT(a, b) /\ r.rem = ZRemT(a, b) /\ r.mod = ZRemT(a, b)
  /\ a = QAdd(QMul(r.dq, b), r.dr) /\ QLt(QAbs(r.dr), QAbs(b))
  /\ t = "S" => r.dq = ZQuoT(a, b)
\* greatest power of two not above n
RECURSIVE HP(_, _)
HP(n, p) == IF QLt(n, QMul(p, "2")) THEN p ELSE HP(n, QMul(p, "2"))
RECURSIVE PrimeBelow(_, _)
PrimeBelow(n, d) == IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE PrimeBelow(n, d + 1)
IsPrime(n) == n >= 2 /\ PrimeBelow(n, 2)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
FactOk(n, r) == IF n = 0 THEN r = <<>> ELSE IF n = 1 THEN r = <<1>>
  ELSE Prod(r) = n /\ (\A i \in 1..Len(r) : IsPrime(r[i])) /\ (\A i \in 2..Len(r) : r[i - 1] <= r[i])
\* consecutive primes starting with the first one
PrimesOk(r) == /\ r[1] = 2 /\ \A i \in 1..Len(r) : IsPrime(r[i])
               /\ \A i \in 2..Len(r) : r[i - 1] < r[i] /\ \A n \in (r[i - 1] + 1)..(r[i] - 1) : ~IsPrime(n)

\* ---- texts -----------------------------------------------------------------
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Spaces == {" ", "\t"}
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN SkipDigits(s, i + 1) ELSE i
RECURSIVE DigVal(_, _, _, _)
DigVal(s, i, j, acc) == IF i >= j THEN acc ELSE DigVal(s, i + 1, j, QAdd(QMul(acc, "10"), s[i]))
\* A decimal at position i: its value and the position behind it; pos 0 = none.
\* [+-] digits [ . [digits] ] | . digits, then an optional exponent.
DecAt(s, i) ==
  LET sg == i <= Len(s) /\ s[i] \in {"+", "-"}
      i0 == IF sg THEN i + 1 ELSE i
      i1 == SkipDigits(s, i0)
      dot == i1 <= Len(s) /\ s[i1] = "."
      f0 == IF dot THEN i1 + 1 ELSE i1
      f1 == IF dot THEN SkipDigits(s, f0) ELSE i1
      has == i1 > i0 \/ f1 > f0
      mant == QDiv(QAdd(QMul(DigVal(s, i0, i1, "0"), QPow("10", f1 - f0)), DigVal(s, f0, f1, "0")), QPow("10", f1 - f0))
      e == f1 <= Len(s) /\ s[f1] \in {"e", "E"}
      es == e /\ f1 + 1 <= Len(s) /\ s[f1 + 1] \in {"+", "-"}
      e0 == f1 + (IF es THEN 2 ELSE 1)
      e1 == SkipDigits(s, e0)
      hase == e /\ e1 > e0
      ex == QToInt(DigVal(s, e0, e1, "0"))
      nege == es /\ s[f1 + 1] = "-"
      v0 == IF hase THEN (IF nege THEN QDiv(mant, QPow("10", ex)) ELSE QMul(mant, QPow("10", ex))) ELSE mant
  IN  IF ~has THEN [pos |-> 0, v |-> "0", frac |-> "0", nege |-> FALSE]
      ELSE [pos |-> IF hase THEN e1 ELSE f1, v |-> IF sg /\ s[i] = "-" THEN QNeg(v0) ELSE v0,
            frac |-> DigVal(s, f0, f1, "0"), nege |-> hase /\ nege /\ ex # 0]
RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ s[i] \in Spaces THEN SkipSp(s, i + 1) ELSE i
\* Rationals: a decimal, or two decimals with a slash; blanks around are skipped.
ParseQ(s) ==
  LET a == DecAt(s, SkipSp(s, 1))
      p == IF a.pos = 0 THEN 0 ELSE SkipSp(s, a.pos)
      sl == p # 0 /\ p <= Len(s) /\ s[p] = "/"
      b == IF sl THEN DecAt(s, SkipSp(s, p + 1)) ELSE a
      q == IF sl /\ b.pos # 0 THEN SkipSp(s, b.pos) ELSE 0
  IN  IF a.pos = 0 THEN [ok |-> FALSE]
      ELSE IF p > Len(s) THEN [ok |-> TRUE, v |-> a.v]
      ELSE IF sl /\ q > Len(s) /\ b.v # "0" THEN [ok |-> TRUE, v |-> QDiv(a.v, b.v)]
      ELSE [ok |-> FALSE]
\* Integers: a decimal whose fraction digits are zero and whose exponent is not negative; no blanks.
ParseZ(s) == LET a == DecAt(s, 1) IN
             IF a.pos > Len(s) /\ a.frac = "0" /\ ~a.nege THEN [ok |-> TRUE, v |-> a.v] ELSE [ok |-> FALSE]
ParseOk(p, r) == IF p.ok THEN r.ok /\ r.v = p.v ELSE ~r.ok
Infix(a) == IF QSgn(a) < 0 THEN "(-" \o QAbs(a) \o ")" ELSE a
Prefix(a) == LET x == QAbs(a)
                 s == IF QIsInt(a) THEN x ELSE "(/ " \o QNum(x) \o " " \o QDen(x) \o ")"
             IN  IF QSgn(a) < 0 THEN "(- " \o s \o ")" ELSE s

\* ---- doubles (exact values of doubles as rationals, or "inf", "-inf") -------
Two(n) == QPow("2", n)
DblMax == QMul(QSub(Two(53), "1"), Two(971))
RECURSIVE Odd(_)
Odd(n) == IF n # "0" /\ ZModF(n, "4294967296") = "0" THEN Odd(ZQuoF(n, "4294967296"))
          ELSE IF n # "0" /\ ZModF(n, "2") = "0" THEN Odd(ZQuoF(n, "2")) ELSE n
IsDouble(q) == /\ QLe(QAbs(q), DblMax)
               /\ Odd(QDen(q)) = "1"
               /\ QLt(Odd(QAbs(QNum(q))), Two(53))
               /\ QIsInt(QMul(q, Two(1074)))
\* The spacing of doubles around q, generously.
Slack(q) == QAdd(QMul(QAbs(q), QDiv("1", Two(50))), QDiv("1", Two(1073)))
Huge(q) == QLt(DblMax, QAbs(q))
ToDoubleOk(q, r) == IF Huge(q) THEN (QSgn(q) = 1 /\ r = "inf") \/ (QSgn(q) = -1 /\ r = "-inf") \/ (r \notin {"inf", "-inf"} /\ QAbs(r) = DblMax /\ QSgn(r) = QSgn(q))
                    ELSE r \notin {"inf", "-inf"} /\ (IF IsDouble(q) THEN r = q ELSE QLe(QAbs(QSub(r, q)), Slack(q)))
DownOk(q, r, over) == IF r = "-inf" THEN QLe(q, QNeg(DblMax))
                      ELSE /\ r # "inf" /\ QLe(r, q) /\ (~over /\ IsDouble(q) => r = q)
                           /\ ~Huge(q) => QLe(QSub(q, r), Slack(q))
                           /\ Huge(q) => QLe(QSub(DblMax, Slack(DblMax)), QAbs(r))
UpOk(q, r, over) == IF r = "inf" THEN QLe(DblMax, q)
                    ELSE /\ r # "-inf" /\ QLe(q, r) /\ (~over /\ IsDouble(q) => r = q)
                         /\ ~Huge(q) => QLe(QSub(r, q), Slack(q))
                         /\ Huge(q) => QLe(QSub(DblMax, Slack(DblMax)), QAbs(r))

Pre(st, c) ==
  CASE c.op \in {"idiv", "exdiv"} -> /\ c.b # "0" /\ (c.t = "S" => ~(c.a = S64Min /\ c.b = "-1"))
                                     /\ c.op = "exdiv" => (c.t = "Q" \/ ZRemT(c.a, c.b) = "0")
    [] c.op = "recip" -> c.a # "0"
    [] c.op \in {"rootx", "sqrts"} -> QSgn(c.a) = 1
    [] c.op = "sqrtf" -> QSgn(c.a) >= 0
    [] c.op = "pow" -> c.t = "S" => InS(QPow(c.a, c.n))
    [] c.op = "toint" -> CASE c.to = "S" -> QIsInt(c.a) /\ InS(c.a) [] c.to = "U" -> QIsInt(c.a) /\ InU64(c.a) [] OTHER -> QIsInt(c.a)
    [] OTHER -> TRUE

Allowed0(st, e) ==
  LET r == e.r IN
  CASE e.op = "un" -> Un(e.t, e.a, r)
    [] e.op = "cmp" -> Cmp(e.a, e.b, r)
    [] e.op = "idiv" -> DivOk(e.t, e.a, e.b, r)
    [] e.op = "exdiv" -> LET q == QDiv(e.a, e.b) IN r.div = q /\ r.asg = q /\ r.quo = q /\ r.opr = q
    [] e.op = "recip" -> r = QDiv("1", e.a)
    [] e.op = "gcd" -> r.gcd = Gcd(e.a, e.b) /\ r.asg = Gcd(e.a, e.b) /\ r.lcm = Lcm(e.a, e.b)
    [] e.op = "eea" -> QAdd(QMul(r[1], e.a), QMul(r[2], e.b)) = ZGcd(e.a, e.b)
    [] e.op = "pow" -> r.pow = QPow(e.a, e.n) /\ r.asg = QPow(e.a, e.n)
    [] e.op = "sqrtx" -> IF IsSquare(e.a) THEN r.ok /\ r.v = QSqrt(e.a) ELSE ~r.ok
    [] e.op = "sqrts" -> EnclosesRoot(r, e.a, 2) /\ (IsSquare(e.a) => r[1] = r[2])
    [] e.op = "sqrtf" -> EnclosesRoot(r, e.a, 2) /\ (IF IsSquare(e.a) THEN r[1] = r[2] ELSE r[1] # r[2])
    [] e.op = "rootx" -> EnclosesRoot(r, e.a, e.n)
    [] e.op = "toint" -> r = e.a
    [] e.op = "hp" -> r = HP(e.a, "1")
    [] e.op = "fact" -> FactOk(e.n, r)
    [] e.op = "primes" -> PrimesOk(r.p) /\ r.z = r.p /\ r.ix = r.p
    [] e.op = "parse" -> ParseOk(IF e.t = "Z" THEN ParseZ(e.s) ELSE ParseQ(e.s), r)
    [] e.op = "print" -> /\ r.infix = Infix(e.a) /\ r.prefix = Prefix(e.a) /\ r.str = e.a /\ r.back = e.a
                         /\ (QIsInt(e.a) => r.zinfix = Infix(e.a) /\ r.zprefix = Prefix(e.a) /\ r.zback = e.a)
    [] e.op = "dbl" -> /\ ToDoubleOk(e.a, r.d)
                       /\ DownOk(e.a, r.down, FALSE) /\ UpOk(e.a, r.up, FALSE)
                       /\ DownOk(e.a, r.downo, TRUE) /\ UpOk(e.a, r.upo, TRUE)
                       /\ (QIsInt(e.a) => ToDoubleOk(e.a, r.z))
    \* a double given by its exact value: back and forth
    [] e.op = "fromd" -> r.q = e.a /\ r.conv = e.a /\ r.back = e.a /\ r.int = QIsInt(e.a)
                         /\ r.floor = QFloor(e.a) /\ r.ceil = QCeil(e.a)
    [] e.op = "fromint" -> r.z = e.a /\ r.q = e.a
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Allowed0(st, e)
After(st, e) == st
=============================================================================
