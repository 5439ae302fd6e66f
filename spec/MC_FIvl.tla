------------------------------ MODULE MC_FIvl ------------------------------
(* A machine with a tiny number format: two registers hold intervals whose    *)
(* ends are rounded outwards to the format, and next to them a point          *)
(* on which every operation is carried out exactly.  The contract of FIvl     *)
(* keeps each point inside its interval, through overflow and underflow.      *)
EXTENDS FIvl, TLC, Json, Randomization
CONSTANTS Depth, Out
VARIABLES st, pt, hist
Rep == {"-6", "-4", "-3", "-2", "-3/2", "-1", "-1/2", "0", "1/2", "1", "3/2", "2", "3", "4", "6"}
Dn(q) == {x \in Rep : QLe(x, q)}
Up1(q) == {x \in Rep : QLe(q, x)}
MaxQ(S) == CHOOSE x \in S : \A y \in S : QLe(y, x)
MinQ(S) == CHOOSE x \in S : \A y \in S : QLe(x, y)
Rnd(X) == IF IsE(X) THEN X ELSE
  LET lo == X.lt = "I" \/ Dn(X.l) = {}  hi == X.ut = "I" \/ Up1(X.u) = {}
      l == IF lo THEN "0" ELSE MaxQ(Dn(X.l))  u == IF hi THEN "0" ELSE MinQ(Up1(X.u))
  IN  Mk(l, IF lo THEN "I" ELSE IF l = X.l THEN X.lt ELSE "S", u, IF hi THEN "I" ELSE IF u = X.u THEN X.ut ELSE "S")
Lits == {[x |-> <<"1/2", "S", "3", "W">>, p |-> "2"], [x |-> <<"-4", "W", "0", "W">>, p |-> "-1"], [x |-> <<"2", "W", "2", "W">>, p |-> "2"],
         [x |-> <<"-1", "S", "0", "I">>, p |-> "3/2"], [x |-> <<"-3/2", "W", "1", "S">>, p |-> "-1"]}
HullAll(S) == IF Norm(S) = {} THEN Empty ELSE LET T == Norm(S) X == CHOOSE X \in T : \A Y \in T : LoLe(X, Y)  Y == CHOOSE Y \in T : \A Z \in T : UpLe(Z, Y) IN Mk(X.l, X.lt, Y.u, Y.ut)
Cmds == [op : {"bin"}, f : {"add", "sub", "mul"}, a : {1, 2}, b : {1, 2}, d : {1, 2}] \cup [op : {"div"}, a : {1, 2}, b : {1, 2}, d : {1, 2}]
        \cup [op : {"pow"}, a : {1, 2}, d : {1, 2}, n : {0, 2, 3}, how : {"f"}] \cup [op : {"neg", "abs", "floor", "ceil"}, a : {1, 2}, d : {1, 2}, how : {"m"}]
        \cup [op : {"hull"}, a : {1, 2}, b : {1, 2}, d : {1, 2}]
Val(c) == LET x == pt[c.a] y == pt[IF "b" \in DOMAIN c THEN c.b ELSE 1] IN
  CASE c.op = "bin" -> (IF c.f = "add" THEN QAdd(x, y) ELSE IF c.f = "sub" THEN QSub(x, y) ELSE QMul(x, y))
    [] c.op = "div" -> QDiv(x, y) [] c.op = "pow" -> QPow(x, c.n) [] c.op = "neg" -> QNeg(x) [] c.op = "abs" -> QAbs(x)
    [] c.op = "floor" -> QFloor(x) [] c.op = "ceil" -> QCeil(x) [] OTHER -> x
Lit(i, l) == [op |-> "lit", d |-> i, x |-> l.x, how |-> "dbl"]
Init == \E l \in Lits, m \in Lits : /\ st = [r |-> <<Abs(l.x), Abs(m.x)>>] /\ pt = <<l.p, m.p>>
                                    /\ hist = IF Out THEN <<Lit(1, l), Lit(2, m)>> ELSE <<[op |-> "start"]>>
Small(q) == QLe(QAbs(QNum(q)), "1000") /\ QLe(QDen(q), "1000")
Next == \E c \in (IF Out THEN RandomSubset(60, Cmds) ELSE Cmds) :
          /\ Pre(st, c) /\ Small(Val(c))
          /\ LET X == Rnd(HullAll(Img(st, c))) IN st' = [st EXCEPT !.r[c.d] = X]
          /\ pt' = [pt EXCEPT ![c.d] = Val(c)]
          /\ Len(hist) < Depth
          /\ hist' = Append(hist, IF Out THEN c ELSE [op |-> "x"])
          /\ (Out /\ Len(hist') = Depth) => PrintT("HIST" \o ToJson(hist'))
Sound == \A i \in {1, 2} : In(pt[i], st.r[i])
Wire(X) == IF IsE(X) THEN <<"0", "S", "0", "S">> ELSE <<X.l, X.lt, X.u, X.ut>>
\* rounding outwards satisfies the contract for every command
Contract == \A c \in Cmds : Pre(st, c) => LET X == Rnd(HullAll(Img(st, c))) IN Ok(st, c @@ [r |-> Wire(IF c.op = "neg" THEN INeg(st.r[c.a]) ELSE X)])
=============================================================================
