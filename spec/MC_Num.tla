------------------------------- MODULE MC_Num -------------------------------
(* Laws of the number functions over small values and of the text grammar   *)
(* over all short texts.                                                    *)
EXTENDS Num
CONSTANTS Vals, Alphabet, MaxLen
VARIABLES a, b, s, phase
Init == a \in Vals /\ b = "0" /\ s = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ b' \in Vals /\ UNCHANGED <<a, s>>
        \/ phase \in {0, 2} /\ Len(s) < MaxLen /\ a = (CHOOSE x \in Vals : TRUE)
           /\ phase' = 2 /\ (\E c \in Alphabet : s' = Append(s, c)) /\ UNCHANGED <<a, b>>
ZDiv(d, n) == IF d = "0" THEN n = "0" ELSE QIsInt(QDiv(n, d))
Rest(t) == SubSeq(t, 2, Len(t))
Laws ==
  /\ phase = 1 =>
     LET g == Gcd(a, b)  m == Lcm(a, b) IN
     /\ ZDiv(g, a) /\ ZDiv(g, b) /\ QGe(g, "0")
     /\ ZDiv(a, m) /\ ZDiv(b, m) /\ QGe(m, "0")
     /\ QMul(g, m) = QAbs(QMul(a, b))
     /\ \A d \in Vals : ZDiv(d, a) /\ ZDiv(d, b) => ZDiv(d, g)
     /\ \A d \in Vals : (d # "0" /\ ZDiv(a, d) /\ ZDiv(b, d)) => ZDiv(m, d)
     /\ IsSquare(a) => IsSqrt(QSqrt(a), a)
     /\ (QMul(b, b) = a /\ QGe(b, "0")) => IsSquare(a) /\ QSqrt(a) = b
     /\ \A n \in 1..3 : EnclosesRoot(<<QAbs(a), QAbs(a)>>, QPow(QAbs(a), n), n)
     /\ QIsInt(a) => QLe(QPow("2", Bits(a) - 1), IF a = "0" THEN "1" ELSE QAbs(a)) /\ QLt(QAbs(a), QPow("2", Bits(a)))
     /\ IsDouble(a) => DownOk(a, a, FALSE) /\ UpOk(a, a, FALSE) /\ ToDoubleOk(a, a)
  /\ phase = 2 =>
     LET z == ParseZ(s)  q == ParseQ(s) IN
     /\ z.ok => q.ok /\ q.v = z.v /\ QIsInt(z.v)
     /\ (s[1] = "-" /\ q.ok /\ Len(s) > 1 /\ s[2] # "-") => LET t == ParseQ(Rest(s)) IN t.ok /\ t.v = QNeg(q.v)
     /\ (s[1] = " ") => ~z.ok /\ q = ParseQ(Rest(s))
     /\ (s[Len(s)] = " ") => ~z.ok /\ q = ParseQ(SubSeq(s, 1, Len(s) - 1))
     /\ (\A i \in 1..Len(s) : s[i] \in Digits) => z.ok /\ ParseZ(Append(s, "0")).v = QMul(z.v, "10")
=============================================================================
