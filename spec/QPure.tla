------------------------------- MODULE QPure -------------------------------
(***************************************************************************)
(* Exact rational arithmetic on canonical decimal strings: "p" or "p/q"    *)
(* with q > 1 and gcd(p, q) = 1.  TLC integers have 32 bits, the numbers   *)
(* of the library do not, hence this module.  Naturals are little-endian   *)
(* digit sequences without trailing zeros (<<>> is zero).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

DStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DVal(c) == (CHOOSE i \in 1..10 : DStr[i] = c) - 1

RECURSIVE NTrim(_), NAddC(_, _, _), NSubB(_, _, _), NCmp(_, _), NScale(_, _, _),
          NMul(_, _), NDivStep(_, _, _), NDivMod(_, _), NGcd(_, _), NStr(_),
          IndexOfSlash(_, _)

NTrim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NTrim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Hd(d) == IF d = <<>> THEN 0 ELSE d[1]
Tl(d) == IF d = <<>> THEN <<>> ELSE Tail(d)

NAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Hd(a) + Hd(b) + c IN <<s % 10>> \o NAddC(Tl(a), Tl(b), s \div 10)
NAdd(a, b) == NAddC(a, b, 0)

NSubB(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET s == Hd(a) - Hd(b) - c
       IN  IF s < 0 THEN <<s + 10>> \o NSubB(Tl(a), Tl(b), 1)
                    ELSE <<s>> \o NSubB(Tl(a), Tl(b), 0)
NSub(a, b) == NTrim(NSubB(a, b, 0))

NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE IF a = <<>> THEN 0
  ELSE LET x == a[Len(a)]  y == b[Len(b)]
       IN  IF x < y THEN -1 ELSE IF x > y THEN 1
           ELSE IF Len(a) = 1 THEN 0
           ELSE NCmp(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))

NScale(a, k, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[1] * k + c IN <<s % 10>> \o NScale(Tail(a), k, s \div 10)
NMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE NTrim(NAdd(NTrim(NScale(a, b[1], 0)), <<0>> \o NMul(a, Tail(b))))

\* Long division; the dividend is consumed from its most significant digit.
NDivStep(r, b, q) == IF NCmp(r, b) < 0 THEN [q |-> q, r |-> r] ELSE NDivStep(NSub(r, b), b, q + 1)
NDivMod(a, b) ==
  IF a = <<>> THEN [q |-> <<>>, r |-> <<>>]
  ELSE LET hi == NDivMod(Tail(a), b)
           s  == NDivStep(NTrim(<<a[1]>> \o hi.r), b, 0)
       IN  [q |-> NTrim(<<s.q>> \o hi.q), r |-> s.r]
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b).r)

NParse(s) == NTrim([i \in 1..Len(s) |-> DVal(SubSeq(s, Len(s) + 1 - i, Len(s) + 1 - i))])
NStr(d) == IF d = <<>> THEN "" ELSE NStr(Tail(d)) \o DStr[d[1] + 1]
NShow(d) == IF d = <<>> THEN "0" ELSE NStr(d)

IndexOfSlash(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE IndexOfSlash(s, i + 1)

Parse(s) ==
  LET neg == SubSeq(s, 1, 1) = "-"
      u   == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      k   == IndexOfSlash(u, 1)
  IN  IF k = 0 THEN [neg |-> neg, n |-> NParse(u), d |-> <<1>>]
      ELSE [neg |-> neg, n |-> NParse(SubSeq(u, 1, k - 1)), d |-> NParse(SubSeq(u, k + 1, Len(u)))]

Show(x) ==
  LET g == NGcd(x.n, x.d)
      n == NDivMod(x.n, g).q
      d == NDivMod(x.d, g).q
  IN  (IF x.neg /\ n # <<>> THEN "-" ELSE "") \o NShow(n)
      \o (IF d = <<1>> THEN "" ELSE "/" \o NShow(d))

RNeg(x) == [x EXCEPT !.neg = ~x.neg]
RAdd(x, y) ==
  LET a == NMul(x.n, y.d)  b == NMul(y.n, x.d)  d == NMul(x.d, y.d)
  IN  IF x.neg = y.neg THEN [neg |-> x.neg, n |-> NAdd(a, b), d |-> d]
      ELSE IF NCmp(a, b) >= 0 THEN [neg |-> x.neg, n |-> NSub(a, b), d |-> d]
      ELSE [neg |-> y.neg, n |-> NSub(b, a), d |-> d]

QAdd(a, b) == Show(RAdd(Parse(a), Parse(b)))
QNeg(a)    == Show(RNeg(Parse(a)))
QSub(a, b) == Show(RAdd(Parse(a), RNeg(Parse(b))))
QMul(a, b) == LET x == Parse(a)  y == Parse(b)
              IN  Show([neg |-> x.neg # y.neg, n |-> NMul(x.n, y.n), d |-> NMul(x.d, y.d)])
\* b is not zero.
QDiv(a, b) == LET x == Parse(a)  y == Parse(b)
              IN  Show([neg |-> x.neg # y.neg, n |-> NMul(x.n, y.d), d |-> NMul(x.d, y.n)])
QAbs(a)    == Show([Parse(a) EXCEPT !.neg = FALSE])
QSgn(a)    == LET x == Parse(a) IN IF x.n = <<>> THEN 0 ELSE IF x.neg THEN -1 ELSE 1
QCmp(a, b) == QSgn(QSub(a, b))
QLt(a, b)  == QCmp(a, b) < 0
QLe(a, b)  == QCmp(a, b) <= 0
QNum(a)    == LET x == Parse(a) IN Show([x EXCEPT !.d = <<1>>])
QDen(a)    == LET x == Parse(a) IN Show([neg |-> FALSE, n |-> x.d, d |-> <<1>>])
QIsInt(a)  == QDen(a) = "1"
QFloor(a)  == LET x == Parse(a)
                  m == NDivMod(x.n, x.d)
                  q == IF x.neg /\ m.r # <<>> THEN NAdd(m.q, <<1>>) ELSE m.q
              IN  Show([neg |-> x.neg, n |-> q, d |-> <<1>>])
QCeil(a)   == QNeg(QFloor(QNeg(a)))
QTrunc(a)  == IF QSgn(a) >= 0 THEN QFloor(a) ELSE QCeil(a)
\* Integer quotients and remainders: T truncates towards zero, F towards minus infinity.
ZQuoT(a, b) == QTrunc(QDiv(a, b))
ZRemT(a, b) == QSub(a, QMul(b, ZQuoT(a, b)))
ZQuoF(a, b) == QFloor(QDiv(a, b))
ZModF(a, b) == QSub(a, QMul(b, ZQuoF(a, b)))
ZGcd(a, b)  == Show([neg |-> FALSE, n |-> NGcd(Parse(a).n, Parse(b).n), d |-> <<1>>])

RECURSIVE QPow(_, _)
QPow(a, n)  == IF n = 0 THEN "1" ELSE QMul(a, QPow(a, n - 1))

RECURSIVE IntDigits(_)
IntDigits(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o IntDigits(n \div 10)
QOfInt(n)   == Show([neg |-> n < 0, n |-> IntDigits(IF n < 0 THEN -n ELSE n), d |-> <<1>>])

RECURSIVE NToInt(_)
NToInt(d)   == IF d = <<>> THEN 0 ELSE d[1] + 10 * NToInt(Tail(d))
QToInt(a)   == LET x == Parse(a) IN IF x.neg THEN -NToInt(x.n) ELSE NToInt(x.n)

\* Bitwise operations on naturals.
RECURSIVE ZBit(_, _, _)
ZBit(a, b, f) ==
  IF a = "0" /\ b = "0" THEN "0"
  ELSE LET x == QToInt(ZModF(a, "2"))  y == QToInt(ZModF(b, "2"))
       IN  QAdd(QOfInt(f[x + 1][y + 1]), QMul("2", ZBit(ZQuoF(a, "2"), ZQuoF(b, "2"), f)))
ZAnd(a, b) == ZBit(a, b, << <<0, 0>>, <<0, 1>> >>)
ZOr(a, b)  == ZBit(a, b, << <<0, 1>>, <<1, 1>> >>)
ZXor(a, b) == ZBit(a, b, << <<0, 1>>, <<1, 0>> >>)
=============================================================================
