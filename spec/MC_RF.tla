-------------------------------- MODULE MC_RF --------------------------------
(* Field laws of quotients of small polynomials; histories of two operations.  *)
EXTENDS RF, TLC, Json
CONSTANTS Out, N
VARIABLES t, phase
Pool == <<<<>>, <<<<<<0, 0>>, "1">>>>, <<<<<<1, 0>>, "1">>>>, <<<<<<1, 0>>, "2">>, <<<<0, 0>>, "-2">>>>, <<<<<<0, 1>>, "-1">>, <<<<1, 0>>, "1">>>>, <<<<<<2, 0>>, "1">>, <<<<0, 0>>, "-1">>>>, <<<<<<0, 0>>, "-3/2">>>>>>
Ps == 1..N
Pairs == {p \in Ps \X Ps : p[2] # 1}
F(p) == Fr(PRead(Pool[p[1]]), PRead(Pool[p[2]]))
Init == t \in Pairs \X Pairs /\ phase = 0
A == F(t[1])
B == F(t[2])
NewOf(d, p) == [op |-> "new", d |-> d, how |-> "quot", p |-> Pool[p[1]], q |-> Pool[p[2]], c |-> "0", v |-> 1]
BinOf(f, ip, d) == [op |-> "bin", f |-> f, k |-> "rf", a |-> 1, b |-> 2, d |-> d, ip |-> ip, p |-> <<>>, c |-> "0", v |-> 1, left |-> FALSE]
SelfOf(f) == [op |-> "bin", f |-> f, k |-> "rf", a |-> 3, b |-> 3, d |-> 3, ip |-> TRUE, p |-> <<>>, c |-> "0", v |-> 1, left |-> FALSE]
CopyOf(a, d) == [op |-> "copy", a |-> a, d |-> d, mv |-> FALSE]
Hist == <<NewOf(1, t[1]), NewOf(2, t[2]), [op |-> "cmp", a |-> 1, b |-> 2], BinOf("add", FALSE, 3), SelfOf("add"), BinOf("sub", FALSE, 3), SelfOf("mul"), BinOf("mul", FALSE, 3), SelfOf("div"),
          BinOf("div", FALSE, 3), SelfOf("sub"), [op |-> "neg", a |-> 1, d |-> 3], [op |-> "inv", a |-> 2, d |-> 3], [op |-> "cmp", a |-> 3, b |-> 2], BinOf("add", TRUE, 1), BinOf("sub", TRUE, 1), [op |-> "view", a |-> 1],
          CopyOf(1, 3), BinOf("mul", TRUE, 1), BinOf("div", TRUE, 1), [op |-> "cmp", a |-> 1, b |-> 3]>>
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED t
        /\ Out => PrintT("HIST" \o ToJson(Hist))
Z == Fr(PZero, PConst(2, "1"))
Laws == (phase = 1 /\ ~Out) =>
  /\ Same(FAdd(A, B), FAdd(B, A)) /\ Same(FMul(A, B), FMul(B, A))
  /\ Same(FSub(FAdd(A, B), B), A)
  /\ B.n # PZero => Same(FMul(FDiv(A, B), B), A)
  /\ Same(FMul(A, FAdd(B, FOne(2))), FAdd(FMul(A, B), A))
  /\ Same(FAdd(A, FSub(Z, A)), Z)
  /\ Same(A, B) = (FSub(A, B).n = PZero)
==============================================================================
