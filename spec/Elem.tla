-------------------------------- MODULE Elem ---------------------------------
(***************************************************************************)
(* Elementary functions of intervals with double bounds (C39).  The        *)
(* functions are defined by the power series of exp, sin and cos, summed   *)
(* with exact numbers rounded to 100 binary places; inverse functions are  *)
(* decided by comparing the argument with the function at the reported     *)
(* bound.  The library relies on the functions of the C library, so values *)
(* may be missed by Tol, relative to their size; values and extrema that   *)
(* are rational have to be contained exactly.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Q, IvlLib
Fns == {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}
Begin(e) == [k |-> 0]
Throws(st, e) == FALSE
After(st, e) == st
\* ---- series -------------------------------------------------------------------
P100 == QPow("2", 100)
Tol == QPow("1/2", 40)
Rd(q) == QDiv(QFloor(QMul(q, P100)), P100)
RECURSIVE HExp(_, _, _)
HExp(x, k, a) == IF k = 0 THEN a ELSE HExp(x, k - 1, Rd(QAdd("1", QDiv(QMul(x, a), QOfInt(k)))))
Exp(x) == HExp(x, 64, "1")
RECURSIVE HTrig(_, _, _, _)
HTrig(y, k, o, a) == IF k = 0 THEN a ELSE HTrig(y, k - 1, o, Rd(QAdd("1", QDiv(QMul(y, a), QOfInt((2 * k - 1 + o) * (2 * k + o))))))
Sin(x) == QMul(x, HTrig(Rd(QNeg(QMul(x, x))), 32, 1, "1"))
Cos(x) == HTrig(Rd(QNeg(QMul(x, x))), 32, 0, "1")
Half(x) == QMul(x, "1/2")
\* 1/exp is computed as exp of the opposite number
Sinh(x) == Half(QSub(Exp(x), Exp(QNeg(x))))
Cosh(x) == Half(QAdd(Exp(x), Exp(QNeg(x))))
PiLo == "3141592653589793/1000000000000000"
PiHi == "1570796326794897/500000000000000"
\* ---- values -------------------------------------------------------------------
Direct == {"exp", "sin", "cos", "tan", "sinh", "cosh", "tanh"}
Val(f, x) == CASE f = "exp" -> Exp(x) [] f = "sin" -> Sin(x) [] f = "cos" -> Cos(x) [] f = "tan" -> QDiv(Sin(x), Cos(x))
               [] f = "sinh" -> Sinh(x) [] f = "cosh" -> Cosh(x) [] f = "tanh" -> QDiv(Sinh(x), Cosh(x))
\* Is y <= f(x), up to the tolerance?  Inverse functions have values between -9 and 9 here.
Slack(x) == QMul(Tol, QAdd("1", QAbs(x)))
LeV(a, b) == QLe(a, QAdd(b, Slack(b)))
RECURSIVE AtMost(_, _, _)
AtMost(f, y, x) ==
  IF f \in Direct THEN LeV(y, Val(f, x))
  ELSE LET z == Rd(QSub(y, Tol)) IN
       CASE f = "acos" -> QLe(z, "0") \/ (QLe(z, "22/7") /\ LeV(x, Cos(z)))
         [] f = "asin" -> QLe(z, QNeg(Half(PiLo))) \/ (QLe(z, "11/7") /\ LeV(Sin(z), x))
         [] f = "atan" -> QLe(z, QNeg(Half(PiLo))) \/ (QLe(z, "11/7") /\ LeV(Sin(z), QMul(x, Cos(z))))
         [] QLt(z, "-9") -> TRUE
         [] QLt("9", z) -> FALSE
         [] f = "log" -> LeV(Exp(z), x)
         [] f = "asinh" -> LeV(Sinh(z), x)
         [] f = "acosh" -> QLe(z, "0") \/ LeV(Cosh(z), x)
         [] f = "atanh" -> LeV(Sinh(z), QMul(x, Cosh(z)))
Odd == {"asin", "atan", "asinh", "atanh"}
AtLeast(f, y, x) ==
  IF f \in Direct THEN LeV(QNeg(y), QNeg(Val(f, x)))
  ELSE IF f \in Odd THEN AtMost(f, QNeg(y), QNeg(x))
  ELSE LET z == Rd(QAdd(y, Tol)) IN
       CASE f = "acos" -> QLe(PiLo, z) \/ (QLe("0", z) /\ LeV(Cos(z), x))
         [] QLt("9", z) -> TRUE
         [] QLt(z, "-9") -> FALSE
         [] f = "log" -> LeV(x, Exp(z))
         [] f = "acosh" -> QLe("0", z) /\ LeV(x, Cosh(z))
\* ---- domains --------------------------------------------------------------------
Dom(f) == CASE f \in {"asin", "acos"} -> Mk("-1", "W", "1", "W") [] f = "atanh" -> Mk("-1", "S", "1", "S")
            [] f = "log" -> Mk("0", "S", "0", "I") [] f = "acosh" -> Mk("1", "W", "0", "I") [] OTHER -> Full
Pre(f, X) == ~IsE(Cap(X, Dom(f))) /\ (f = "log" => X.lt # "I" /\ QLe("0", X.l))
\* Points of a set: its ends (there the value is a limit) and some between.
Grid(X) == LET n == 6 IN
  IF X.lt # "I" /\ X.ut # "I" THEN {QAdd(X.l, QMul(QSub(X.u, X.l), QDiv(QOfInt(k), QOfInt(n)))) : k \in 0..n}
  ELSE IF X.lt # "I" THEN {QAdd(X.l, x) : x \in {"0", "1/4", "1", "2", "7/2"}}
  ELSE IF X.ut # "I" THEN {QSub(X.u, x) : x \in {"0", "1/4", "1", "2", "7/2"}}
  ELSE {"-3", "-1", "-1/4", "0", "1/2", "2"}
Near(x) == QLe(QAbs(x), "8")
Pole(f, x) == f = "tan" /\ QLt(QAbs(Cos(x)), "1/50")
Pts(f, X) == LET D == Cap(X, Dom(f)) IN
  {x \in Grid(D) : /\ f \in Direct => Near(x)
                   /\ ~Pole(f, x)
                   /\ f = "log" => QLe("1/1024", x) /\ QLe(x, "4096")
                   /\ f = "atanh" => QLe(QAbs(x), "1023/1024")
                   /\ f \in {"asinh", "acosh"} => QLe(QAbs(x), "2000")}
\* ---- exact values ---------------------------------------------------------------
Known(f) == CASE f \in {"exp", "cos", "cosh"} -> <<"0", "1">> [] f \in {"log", "acos", "acosh"} -> <<"1", "0">> [] OTHER -> <<"0", "0">>
Multiple(k, off) == LET m == QAdd(QOfInt(k), off) IN {QMul(m, PiLo), QMul(m, PiHi)}
Extrema(f, X) ==   \* the extrema that are attained inside X
  LET off == IF f = "sin" THEN "1/2" ELSE "0"
      in(k) == \A x \in Multiple(k, off) : In(x, X)
  IN  (IF \E k \in {-4, -2, 0, 2, 4} : in(k) THEN {"1"} ELSE {}) \cup (IF \E k \in {-5, -3, -1, 1, 3} : in(k) THEN {"-1"} ELSE {})
Unit == Mk(QSub("-1", Tol), "W", QAdd("1", Tol), "W")
Encloses(f, X, R) ==
  /\ ~IsE(R)
  /\ \A x \in Pts(f, X) : (R.lt = "I" \/ AtMost(f, R.l, x)) /\ (R.ut = "I" \/ AtLeast(f, R.u, x))
  /\ LET k == Known(f) IN In(k[1], X) => In(k[2], R)
  /\ f \in {"sin", "cos"} => \A v \in Extrema(f, X) : In(v, R)
  /\ f = "log" /\ X.l = "0" => R.lt = "I"
  /\ f = "atanh" => (~QLe(QAbs(X.l), "1023/1024") \/ X.lt = "I" => R.lt = "I" \/ AtMost(f, R.l, "-1023/1024"))
  \* unbounded values
  /\ f \in {"exp", "sinh", "asinh", "log", "acosh"} => (X.ut = "I" => R.ut = "I")
  /\ f \in {"sinh", "asinh"} => (X.lt = "I" => R.lt = "I")
  /\ f = "cosh" => (X.lt = "I" \/ X.ut = "I" => R.ut = "I")
  /\ f = "atanh" => (X.ut = "I" \/ QLe("1", X.u) => R.ut = "I") /\ (X.lt = "I" \/ QLe(X.l, "-1") => R.lt = "I")
\* ---- width ----------------------------------------------------------------------
Inner(f, X) == X.lt # "I" /\ X.ut # "I" /\ Sub(X, Dom(f)) /\ X.l \in Pts(f, X) /\ X.u \in Pts(f, X)
Increasing(f, X) == CASE f \in {"exp", "log", "asin", "atan", "sinh", "tanh", "asinh", "acosh", "atanh"} -> TRUE
                      [] f \in {"sin", "tan"} -> QLe("-3/2", X.l) /\ QLe(X.u, "3/2") [] f = "cos" -> QLe("-3", X.l) /\ QLe(X.u, "0")
                      [] f = "cosh" -> QLe("0", X.l) [] OTHER -> FALSE
Decreasing(f, X) == CASE f = "acos" -> TRUE [] f = "cos" -> QLe("0", X.l) /\ QLe(X.u, "3") [] f = "cosh" -> QLe(X.u, "0") [] f = "sin" -> QLe("8/5", X.l) /\ QLe(X.u, "9/2") [] OTHER -> FALSE
Tight(f, X, R) ==
  /\ Inner(f, X) /\ Increasing(f, X) => R.lt # "I" /\ R.ut # "I" /\ AtLeast(f, R.l, X.l) /\ AtMost(f, R.u, X.u)
  /\ Inner(f, X) /\ Decreasing(f, X) => R.lt # "I" /\ R.ut # "I" /\ AtLeast(f, R.l, X.u) /\ AtMost(f, R.u, X.l)
  /\ f \in {"sin", "cos"} => Sub(R, Unit)
Allowed(st, e) == LET X == Abs(e.x)  R == Abs(e.r.v) IN Pre(e.fn, X) => e.r.v[2] # "N" /\ Encloses(e.fn, X, R) /\ Tight(e.fn, X, R) /\ e.r.a = e.r.v
=============================================================================
