------------------------------ MODULE MC_Mono -------------------------------
(* Laws of Mono over all exponent vectors of a box, and behaviours.         *)
EXTENDS Mono, TLC, Json, Randomization
CONSTANTS NV, K, MaxE, Depth, Width
VARIABLES st, hist, done
M == [1..NV -> 0..MaxE]
R == 1..K

Cmds == {[op |-> "mk", d |-> d, m |-> m, how |-> h] : d \in R, m \in M, h \in {"list", "deg", "init"}}
  \cup {[op |-> o, d |-> d, a |-> a, b |-> b] : o \in {"mul", "gcd", "lcm", "lcmdiv", "div"}, d \in R, a \in R, b \in R}
  \cup {[op |-> o, d |-> d, a |-> a, v |-> v] : o \in {"mulv", "vmul", "dropv", "divv"}, d \in R, a \in R, v \in 1..NV}
  \cup {[op |-> o, d |-> d, a |-> a] : o \in {"sep", "sqrt", "copy"}, d \in R, a \in R}
  \cup {[op |-> "release", a |-> a] : a \in R} \cup {[op |-> "view", a |-> a] : a \in R}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"cmp", "divisible"}, a \in R, b \in R}
  \cup {[op |-> "cmpv", a |-> a, v |-> v] : a \in R, v \in 1..NV}
Small(s) == \A i \in R : MDeg(s.regs[i]) <= 12
OkCmd(s, c) == Pre(s, c) /\ (c.op = "view" => s.regs[c.a] # MOne(NV))

Init == st = Begin([nv |-> NV, k |-> K, types |-> "rrrr"]) /\ hist = <<>> /\ done = FALSE
Next ==
  \/ /\ Len(hist) < Depth
     /\ \E c \in RandomSubset(Width, Cmds) : OkCmd(st, c) /\ st' = After(st, c) /\ Small(st') /\ hist' = Append(hist, c)
     /\ UNCHANGED done
  \/ /\ Len(hist) = Depth /\ ~done
     /\ PrintT("HIST" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<st, hist>>

LInit == \E m \in M : st = [Begin([nv |-> NV, k |-> K, types |-> "rrrr"]) EXCEPT !.regs[1] = m] /\ hist = <<>> /\ done = FALSE
LNext == /\ ~done /\ \E f \in [2..K -> M] : st' = [st EXCEPT !.regs = [i \in R |-> IF i = 1 THEN @[1] ELSE f[i]]]
         /\ done' = TRUE /\ UNCHANGED hist
\* Register 1, 2, 3: a, b, c.
MonLaws ==
  LET a == st.regs[1]  b == st.regs[2]  c == st.regs[3] IN
  /\ MMul(a, b) = MMul(b, a) /\ MMul(MMul(a, b), c) = MMul(a, MMul(b, c)) /\ MMul(a, MOne(NV)) = a
  /\ MDivides(a, MMul(a, b)) /\ MDiv(MMul(a, b), a) = b
  /\ MMul(MGcd(a, b), MLcm(a, b)) = MMul(a, b)
  /\ MDivides(MGcd(a, b), a) /\ MDivides(a, MLcm(a, b))
  /\ (MDivides(c, a) /\ MDivides(c, b)) => MDivides(c, MGcd(a, b))
  /\ (MDivides(a, c) /\ MDivides(b, c)) => MDivides(MLcm(a, b), c)
  /\ MDeg(MMul(a, b)) = MDeg(a) + MDeg(b)
  /\ MHalf(MPow(a, 2)) = a /\ MEven(MPow(a, 2)) /\ MMul(a, a) = MPow(a, 2)
OrdLaws ==
  LET a == st.regs[1]  b == st.regs[2]  c == st.regs[3] IN
  /\ ~MLess(a, a) /\ ~LexLess(a, a)
  /\ (a # b) => (MLess(a, b) # MLess(b, a)) /\ (LexLess(a, b) # LexLess(b, a))
  /\ (MLess(a, b) /\ MLess(b, c)) => MLess(a, c)
  /\ (LexLess(a, b) /\ LexLess(b, c)) => LexLess(a, c)
  /\ MLess(a, b) <=> MLess(MMul(a, c), MMul(b, c))
  /\ (a # MOne(NV)) => MLess(MOne(NV), a) /\ LexLess(MOne(NV), a)
  /\ (MDeg(a) = MDeg(b)) => (MLess(a, b) = LexLess(a, b))
  /\ (MDivides(a, b) /\ a # b) => MLess(a, b)
=============================================================================
