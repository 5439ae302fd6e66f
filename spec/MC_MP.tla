------------------------------- MODULE MC_MP --------------------------------
(* Bounded instance of MP: laws of the specification, and behaviours for    *)
(* replay in the real code.                                                 *)
EXTENDS MP, TLC, Json, Randomization
CONSTANTS NV, K, Depth, Width, Scope
VARIABLES st, hist, done

Mons == IF Scope = "small" THEN {MOne(NV), MVar(NV, 1), MVar(NV, NV), MPow(MVar(NV, 1), 2)}
        ELSE {m \in [1..NV -> 0..2] : MDeg(m) <= 2}
Coefs == IF Scope = "small" THEN {"1", "-1"} ELSE {"1", "-1", "2", "1/2"}
Terms == {<<m, c>> : m \in Mons, c \in Coefs}
R == 1..K

Lits == {[op |-> "lit", d |-> d, p |-> p, how |-> h] :
           d \in R, h \in {"vec", "acc", "sum"}, p \in {<<>>} \cup {<<t>> : t \in Terms}}
Bins == {[op |-> "bin", f |-> f, d |-> d, a |-> a, b |-> b] : f \in {"add", "sub", "mul"}, d \in R, a \in R, b \in R}
Inps == {[op |-> "inp", f |-> f, a |-> a, b |-> b] : f \in {"add", "sub", "mul"}, a \in R, b \in R}
Inpx == {[op |-> "inpx", f |-> f, a |-> a, k |-> k, x |-> x, v |-> v] :
           f \in {"add", "sub", "mul"}, a \in R, k \in {"term", "mono", "var", "coeff"}, x \in Terms, v \in {1, NV}}
Unary == {[op |-> o, d |-> d, a |-> a] : o \in {"neg", "copy", "move"}, d \in R, a \in R}
         \cup {[op |-> o, a |-> a] : o \in {"order", "unorder", "strip", "view"}, a \in R}
Prods == {[op |-> "subprod", a |-> a, x |-> x, b |-> b] : a \in R, b \in R, x \in Terms}
         \cup {[op |-> "addterm", a |-> a, x |-> x] : a \in R, x \in Terms}
Cmps == {[op |-> "cmp", a |-> a, b |-> b] : a \in R, b \in R}
Cmpx == {[op |-> "cmpx", a |-> a, k |-> k, side |-> sd, x |-> x, v |-> v] :
           a \in R, k \in {"term", "mono", "var", "coeff"}, sd \in {"l", "r"}, x \in Terms, v \in {1, NV}}
\* The scope "view" looks at the registers in every other command.
Cmds == IF Scope = "view" THEN Lits \cup Bins \cup Unary \cup Cmps \cup Cmpx ELSE Lits \cup Bins \cup Inps \cup Inpx \cup Unary \cup Prods \cup Cmps

Step(s, c) == IF c.op \in Mutators THEN After(s, c) ELSE s
Init == st = Begin([nv |-> NV, k |-> K]) /\ hist = <<>> /\ done = FALSE
\* Random walks: Width commands are offered in every state.
Next ==
  \/ /\ Len(hist) < Depth
     /\ \E c \in RandomSubset(Width, Cmds) : Pre(st, c) /\ st' = Step(st, c) /\ hist' = Append(hist, c)
     /\ UNCHANGED done
  \/ /\ Len(hist) = Depth /\ ~done
     /\ PrintT("HIST" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<st, hist>>

\* All register contents of the scope, for checking the laws.
Polys == {PZero} \cup {PMono(m, c) : m \in Mons, c \in Coefs}
         \cup {PAdd(PMono(m[1], c), PMono(m[2], "-1")) : m \in {x \in Mons \X Mons : MLess(x[1], x[2])}, c \in Coefs}
LInit == /\ \E p \in Polys : st = [Begin([nv |-> NV, k |-> K]) EXCEPT !.regs[1] = p]
         /\ hist = <<>> /\ done = FALSE
LNext == /\ ~done
         /\ \E f \in [2..K -> Polys] : st' = [st EXCEPT !.regs = [i \in R |-> IF i = 1 THEN @[1] ELSE f[i]]]
         /\ done' = TRUE /\ UNCHANGED hist

Laws ==
  LET G == st.regs IN
  \A i \in R : LET p == G[i] IN
     /\ \A m \in DOMAIN p : p[m] # "0" /\ Len(m) = NV
     /\ PAdd(p, PZero) = p /\ PMul(p, PConst(NV, "1")) = p /\ PSub(p, p) = PZero /\ PMul(p, PZero) = PZero
     /\ ~PIsZero(p) => PAdd(TailOf(p), PMono(LeadMon(p), LeadCoef(p))) = p
     /\ \A j \in R : LET q == G[j] IN
          /\ PAdd(p, q) = PAdd(q, p) /\ PMul(p, q) = PMul(q, p)
          /\ PSub(p, q) = PNeg(PSub(q, p))
          /\ (~PIsZero(p) /\ ~PIsZero(q)) =>
                /\ LeadMon(PMul(p, q)) = MMul(LeadMon(p), LeadMon(q))
                /\ LeadCoef(PMul(p, q)) = QMul(LeadCoef(p), LeadCoef(q))
                /\ PDeg(PMul(p, q)) = PDeg(p) + PDeg(q)
          /\ \A k \in R : LET s == G[k] IN
               /\ PMul(p, PAdd(q, s)) = PAdd(PMul(p, q), PMul(p, s))
               /\ PMul(PMul(p, q), s) = PMul(p, PMul(q, s))

\* One total order on polynomials; its answers are accepted, contradicting ones are refused.
RECURSIVE PLess(_, _)
PLess(p, q) ==
  IF p = q \/ PIsZero(q) THEN FALSE
  ELSE IF PIsZero(p) THEN TRUE
  ELSE IF LeadMon(p) # LeadMon(q) THEN MLess(LeadMon(p), LeadMon(q))
  ELSE IF LeadCoef(p) # LeadCoef(q) THEN QLt(LeadCoef(p), LeadCoef(q))
  ELSE PLess(TailOf(p), TailOf(q))
Rel(p, q) == [eq |-> p = q, ne |-> p # q, lt |-> PLess(p, q), gt |-> PLess(q, p),
              le |-> p = q \/ PLess(p, q), ge |-> p = q \/ PLess(q, p)]
OrdLaws ==
  \A i \in R : \A j \in R : \A k \in R :
    LET p == st.regs[i]  q == st.regs[j]  s == st.regs[k]
        known == RelPairs(Rel(p, q), p, q) \cup RelPairs(Rel(q, s), q, s) IN
    /\ RelOk(Rel(p, s), p = s)
    /\ OrdOk(known, RelPairs(Rel(p, s), p, s))
    /\ (PLess(p, q) /\ PLess(q, s)) => /\ ~OrdOk(known, {<<s, p>>})
                                       /\ ~RelOk(Rel(p, s), TRUE)
=============================================================================
