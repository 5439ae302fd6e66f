-------------------------------- MODULE MC_Sym --------------------------------
(* Out = FALSE: for all pairs of permutations of four variables, demanding    *)
(* that an assignment is lexicographically no greater than its images leaves  *)
(* a member of every orbit; the permutations keeping a set form a group; the  *)
(* permutations that only rename a formula keep its models.                   *)
(* Out = TRUE: every connective over all pairs and triples of literals.       *)
EXTENDS Sym, Json
CONSTANTS Out, NA
VARIABLES c, phase
Node(t, v, p, r, a) == [t |-> t, v |-> v, p |-> p, r |-> r, a |-> a]
X == <<<<<<1, 0>>, "1">>>>
Y == <<<<<<0, 1>>, "1">>>>
Con(p, r) == Node("con", 0, p, r, <<>>)
B(i) == Node("bool", i, <<>>, "", <<>>)
Neg(t) == Node("not", 0, <<>>, "", <<t>>)
Atoms == <<B(1), B(2), Con(X, "<="), Con(Y, "<="), Con(X \o Y, "="), Con(<<<<<<1, 1>>, "1">>>>, ">"), Con(X \o <<<<<<0, 1>>, "-1">>>>, "<="),
           Con(<<<<<<2, 0>>, "1">>, <<<<0, 2>>, "1">>, <<<<0, 0>>, "-1">>>>, "<"), Neg(B(1)), Neg(B(2)), Con(X, ">"), Con(Y, ">"), Con(<<<<<<2, 1>>, "1">>>>, ">=")>>
Un == {"and", "or", "xor", "iff"}
Op(t, a) == Node(t, 0, <<>>, "", a)
\* ---- laws ------------------------------------------------------------------
K4 == <<"b", "b", "r", "r">>
K3 == <<"i", "i", "i">>
St(k) == [nv |-> 2, ob |-> 2, ov |-> 4, ou |-> 4, kinds |-> k, box |-> Box(k, Len(k))]
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == i > Len(a) \/ QLt(a[i], b[i]) \/ (a[i] = b[i] /\ LexLe(a, b, i + 1))
LawLex == \A k \in {K3, <<"b", "b", "b", "b">>} :
  LET bx == Box(k, Len(k))  n == Len(k)
  IN  \A g \in {c[1]}, h \in {c[2]} :
        (DOMAIN g = 1..n /\ DOMAIN h = 1..n) =>
          LET L == {a \in bx : LexLe(a, Apply(g, a), 1) /\ LexLe(a, Apply(h, a), 1)} IN bx = Closure({g, h}, L)
LawSyn == LET s == [nv |-> 2, ob |-> 2, ov |-> 4, ou |-> 4, kinds |-> <<"r", "r", "b", "b">>, box |-> Box(<<"r", "r", "b", "b">>, 4)]
              t == Op(c[1], <<Atoms[c[2]], Atoms[c[3]]>>)
              S == Syntactic(s, t)
          IN  /\ Closure(S, {Id(4)}) = S
              /\ \A g \in S : {Apply(g, a) : a \in Models(s, t)} = Models(s, t)
Laws == phase = 0 => IF Len(c) = 2 THEN LawLex ELSE LawSyn
Perms == Permutations(1..3) \cup Permutations(1..4)
\* ---- all small formulas ----------------------------------------------------
Cmd(t, f) == [op |-> "sym", x |-> t, first |-> f, way |-> f]
Hist(t, i, j) == <<Cmd(Op(t, <<Atoms[i], Atoms[j]>>), (i + j) % 2 = 0)>> \o
                 [k \in 1..NA |-> Cmd(Op("and", <<Op(t, <<Atoms[i], Atoms[j]>>), Atoms[k]>>), k % 2 = 0)] \o
                 [k \in 1..NA |-> Cmd(Op("ite", <<Atoms[i], Atoms[k], Atoms[j]>>), k % 2 = 0)] \o
                 [k \in 1..NA |-> Cmd(Op("implies", <<Op(t, <<Atoms[i], Atoms[j]>>), Op("or", <<Atoms[i], Atoms[k]>>)>>), k % 2 = 0)]
Init == /\ phase = 0
        /\ IF Out THEN c \in {<<t, i, j>> : t \in Un, i \in 1..NA, j \in 1..NA}
           ELSE c \in {<<g, h>> : g \in Permutations(1..3), h \in Permutations(1..3)} \cup {<<g, h>> : g \in Permutations(1..4), h \in Permutations(1..4)}
                      \cup {<<t, i, j>> : t \in Un, i \in DOMAIN Atoms, j \in DOMAIN Atoms}
Next == /\ phase = 0 /\ phase' = 1 /\ c' = c
        /\ Out => PrintT("HIST" \o ToJson(Hist(c[1], c[2], c[3])))
=============================================================================
