------------------------------- MODULE MC_BV --------------------------------
(* The numeric definitions against the bitwise ones, for all small values.  *)
EXTENDS BVLib
CONSTANT W
VARIABLES x, y, phase
All == {V(w, QOfInt(n)) : w \in 1..W, n \in 0..(2 ^ W - 1)}
Init == x \in All /\ y = x /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ x' = x /\ y' \in All
Bit(a, i) == ZModF(ZQuoF(a.n, P2(i)), "2") = "1"
Bits(a) == [i \in 0..(a.w - 1) |-> Bit(a, i)]
Same == x.w = y.w
Laws == phase = 1 =>
  /\ \A i \in 0..(x.w - 1) : Bit(BNot(x), i) = ~Bit(x, i)
  /\ Bin("add", x, BNeg(x)) = V(x.w, "0") /\ BNeg(x) = Bin("add", BNot(x), V(x.w, "1"))
  /\ \A k \in 0..(2 * x.w) : /\ \A i \in 0..(x.w - 1) : Bit(RotL(x, k), (i + k) % x.w) = Bit(x, i)
                             /\ RotR(RotL(x, k), k) = x
  /\ \A k \in 1..3 : \A i \in 0..(k * x.w - 1) : Bit(Rep(x, k), i) = Bit(x, i % x.w)
  /\ \A i \in 0..(x.w + y.w - 1) : Bit(Concat(x, y), i) = IF i < y.w THEN Bit(y, i) ELSE Bit(x, i - y.w)
  /\ Extract(Concat(x, y), x.w + y.w - 1, y.w) = x /\ Extract(Concat(x, y), y.w - 1, 0) = y
  /\ \A k \in 0..2 : SVal(ExtS(x, k)) = SVal(x) /\ Extract(ExtU(x, k), x.w - 1, 0) = x
  /\ Same =>
     /\ \A i \in 0..(x.w - 1) : /\ Bit(Bin("and", x, y), i) = (Bit(x, i) /\ Bit(y, i))
                                /\ Bit(Bin("or", x, y), i) = (Bit(x, i) \/ Bit(y, i))
                                /\ Bit(Bin("xor", x, y), i) = (Bit(x, i) # Bit(y, i))
     \* the SMT-LIB definitions of the signed operations
     /\ SDiv(x, y) = (CASE ~Neg(x) /\ ~Neg(y) -> UDiv(x, y) [] Neg(x) /\ ~Neg(y) -> BNeg(UDiv(BNeg(x), y))
                        [] ~Neg(x) /\ Neg(y) -> BNeg(UDiv(x, BNeg(y))) [] OTHER -> UDiv(BNeg(x), BNeg(y)))
     /\ SRem(x, y) = (CASE ~Neg(x) /\ ~Neg(y) -> URem(x, y) [] Neg(x) /\ ~Neg(y) -> BNeg(URem(BNeg(x), y))
                        [] ~Neg(x) /\ Neg(y) -> URem(x, BNeg(y)) [] OTHER -> BNeg(URem(BNeg(x), BNeg(y))))
     /\ SMod(x, y) = LET ax == IF Neg(x) THEN BNeg(x) ELSE x
                         ay == IF Neg(y) THEN BNeg(y) ELSE y
                         u == URem(ax, ay)
                     IN  (CASE u.n = "0" -> u [] ~Neg(x) /\ ~Neg(y) -> u [] Neg(x) /\ ~Neg(y) -> Bin("add", BNeg(u), y)
                            [] ~Neg(x) /\ Neg(y) -> Bin("add", u, y) [] OTHER -> BNeg(u))
     /\ Bin("add", Bin("mul", UDiv(x, y), y), URem(x, y)) = x
     /\ Ashr(x, y) = IF Neg(x) THEN BNot(Lshr(BNot(x), y)) ELSE Lshr(x, y)
     /\ \A i \in 0..(x.w - 1) : Bit(Shl(x, y), i) = (IF QLe(y.n, QOfInt(i)) THEN Bit(x, i - QToInt(y.n)) ELSE FALSE)
     /\ Cmp("slt", x, y) = ((Neg(x) /\ ~Neg(y)) \/ (Neg(x) = Neg(y) /\ Cmp("ult", x, y)))
=============================================================================
