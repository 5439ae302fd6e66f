------------------------------- MODULE MC_Form -------------------------------
(* Out = FALSE: for all small clause sets the search for values of auxiliary  *)
(* variables agrees with projecting the set of models; laws of connectives.   *)
(* Out = TRUE: every connective applied to all short lists of literals,       *)
(* followed by conversions, negations and substitutions.                      *)
EXTENDS Form, TLC, Json
CONSTANTS Out, MaxLen
VARIABLES c, phase
Node(t, v, a) == [t |-> t, v |-> v, p |-> <<>>, r |-> "", a |-> a]
V(i) == Node("bool", i, <<>>)
L(s) == IF s > 0 THEN V(s) ELSE Node("not", 0, <<V(-s)>>)
\* ---- laws ------------------------------------------------------------------
Lit == {-3, -2, -1, 1, 2, 3}
Cls == {s \in SUBSET Lit : Cardinality(s) \in 1..3 /\ \A x \in s : -x \notin s}
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
ClTree(s) == IF Cardinality(s) = 1 THEN L(CHOOSE x \in s : TRUE) ELSE Node("or", 0, [i \in 1..Cardinality(s) |-> L(SeqOf(s)[i])])
Tree == Node("and", 0, <<ClTree(c[1]), ClTree(c[2]), ClTree(c[3])>>)
St(nb) == [nv |-> 1, nb |-> nb, pts |-> <<<<"0">>>>, f |-> NoHandles]
Project(m) == {b % 2 : b \in m}
Law == /\ IsCnf(Tree)
       /\ CnfMeans(St(1), Tree) = <<Project(Mean(1, 3, Tree, <<"0">>))>>
       /\ CnfMeans(St(3), Tree) = Means(St(3), Tree)
\* ---- all applications ------------------------------------------------------
Pre0 == <<[op |-> "bool", v |-> 1, to |-> 1], [op |-> "bool", v |-> 2, to |-> 2], [op |-> "not", x |-> 1, way |-> TRUE, to |-> 3], [op |-> "not", x |-> 2, way |-> FALSE, to |-> 4],
          [op |-> "const", b |-> TRUE, to |-> 5], [op |-> "const", b |-> FALSE, to |-> 6],
          [op |-> "con", p |-> <<<<<<1>>, "1">>>>, rel |-> "<=", to |-> 7], [op |-> "con", p |-> <<<<<<1>>, "1">>, <<<<0>>, "-1">>>>, rel |-> "<", to |-> 8]>>
NL == 8
Types == {"and", "or", "xor", "iff", "implies", "ite"}
Lens(t) == IF t = "implies" THEN {2} ELSE IF t = "ite" THEN {3} ELSE 1..MaxLen
\* the number n (base 8) as a list of leaves
Args(n, len) == [i \in 1..len |-> 1 + ((n \div (NL ^ (i - 1))) % NL)]
Body(t, a, n) == <<[op |-> "mk", t |-> t, a |-> a, way |-> (n % 2 = 0), to |-> 9],
                   [op |-> "cnf", x |-> 9, keep |-> (n % 3 = 0), simp |-> (n % 2 = 0), eq |-> TRUE],
                   [op |-> "not", x |-> 9, way |-> TRUE, to |-> 10],
                   [op |-> "cnf", x |-> 10, keep |-> (n % 3 = 1), simp |-> (n % 5 < 2), eq |-> (n % 7 < 3)],
                   [op |-> "resolve", x |-> 10, keep |-> (n % 2 = 1), to |-> 11],
                   [op |-> "subst", x |-> 11, bm |-> IF n % 3 = 0 THEN <<<<1, 3>>>> ELSE <<<<1, 4>>, <<2, 8>>>>, am |-> <<>>, way |-> (n % 2 = 0), to |-> 12],
                   [op |-> "subst", x |-> 9, bm |-> IF n % 3 = 0 THEN <<>> ELSE <<<<2, 1>>>>, am |-> <<<<1, <<<<<<1>>, "-1">>>>>>>>, way |-> (n % 3 = 0), to |-> 12],
                   [op |-> "mk", t |-> "or", a |-> <<9, 11, 12>>, way |-> FALSE, to |-> 13],
                   [op |-> "cnf", x |-> 13, keep |-> TRUE, simp |-> (n % 2 = 0), eq |-> (n % 5 < 3)],
                   [op |-> "drop", x |-> 9], [op |-> "drop", x |-> 12]>>
RECURSIVE Flat(_, _, _, _)
Flat(t, len, lo, hi) == IF lo >= hi THEN <<>> ELSE Body(t, Args(lo, len), lo + len) \o Flat(t, len, lo + 1, hi)
Init == /\ phase = 0
        /\ c \in IF Out THEN {x \in Types \X (1..MaxLen) \X (0..63) : x[2] \in Lens(x[1]) /\ x[3] * 8 < NL ^ x[2]} ELSE Cls \X Cls \X Cls
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED c
        /\ Out => PrintT("HIST" \o ToJson(Pre0 \o Flat(c[1], c[2], c[3] * 8, c[3] * 8 + 8)))
Laws == (phase = 1 /\ ~Out) => Law
S3 == SUBSET All(2)
ASSUME \A x, y \in S3 : /\ All(2) \ TAnd(2, <<x, y>>) = TOr(2, <<All(2) \ x, All(2) \ y>>)
                        /\ TIff(2, <<x, y>>) = All(2) \ TXor(2, <<x, y>>)
                        /\ TImp(2, <<x, y>>) = TOr(2, <<All(2) \ x, y>>)
                        /\ \A z \in S3 : TIte(2, <<x, y, z>>) = TAnd(2, <<TImp(2, <<x, y>>), TOr(2, <<x, z>>)>>)
=============================================================================
