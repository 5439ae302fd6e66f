-------------------------------- MODULE MC_Vs --------------------------------
(* Laws: signs of numbers with one square root, the rules that remove a root,  *)
(* and elimination by test points against the cells of the real line.  The     *)
(* generator substitutes every test point into every constraint of a family.   *)
EXTENDS Vs, Json
CONSTANTS Out, Small
VARIABLES ph, a, b
R1 == {"0", "1", "2", "4", "1/2"}
C1 == {"-2", "-1", "0", "1", "3/2"}
Cs == {"-1", "0", "1"}
Quad == {UTrim(<<c, d, e>>) : c \in Cs, d \in Cs, e \in Cs} \cup {<<"1", "-2", "1">>, <<"-1", "3", "-1">>}
Rels == {"=", "!=", "<", "<=", ">", ">="}
Rels2 == {"=", "!=", "<", "<="}
\* ---- generator: coefficients of x^2, x, 1 in {0, 1, -1, y} --------------------
One == <<0, 0>>
W(c, k) == CASE c = "0" -> <<>> [] c = "y" -> <<<<<<k, 1>>, "1">>>> [] OTHER -> <<<<<<k, 0>>, c>>>>
K(c) == IF c = "0" THEN <<>> ELSE IF c = "y" THEN <<<<<<0, 1>>, "1">>>> ELSE <<<<One, c>>>>
Exprs == <<[op |-> "sq", c |-> K("1"), f |-> <<>>, d |-> K("y"), q |-> <<>>, to |-> 1],
           [op |-> "sq", c |-> K("y"), f |-> K("1"), d |-> <<<<One, "-2">>>>, q |-> <<<<<<0, 2>>, "1">>, <<One, "-1">>>>, to |-> 2],
           [op |-> "sq", c |-> K("1"), f |-> K("y"), d |-> K("y"), q |-> <<<<<<0, 1>>, "1">>, <<One, "1">>>>, to |-> 3]>>
Terms == <<<<"normal", 1>>, <<"normal", 2>>, <<"normal", 3>>, <<"eps", 1>>, <<"eps", 2>>, <<"eps", 3>>, <<"minf", 1>>, <<"pinf", 1>>>>
RelSeq == <<"=", "!=", "<", "<=", ">", ">=">>
Cmds(p) == Exprs \o <<[op |-> "zeros", p |-> p, rel |-> "=", v |-> 1]>>
           \o [i \in 1..96 |-> LET t == Terms[((i - 1) % 8) + 1]  j == (i - 1) \div 8 IN
                 [op |-> "subst", p |-> p, rel |-> RelSeq[(j % 6) + 1], v |-> 1, k |-> t[1], x |-> t[2], paper |-> j >= 6, box |-> <<>>]]
Init == ph = 0 /\ a = <<>> /\ b = <<>>
Next == /\ ph = 0 /\ ph' = 1
        /\ IF Out THEN /\ \E c, d, e \in {"0", "1", "-1", "y"} : a' = <<c, d, e>> /\ PrintT("HIST" \o ToJson(Cmds(W(c, 2) \o W(d, 1) \o W(e, 0)))) /\ b' = <<>>
           ELSE \/ \E p, q \in Quad, r, s \in (IF Small THEN {"=", "<"} ELSE Rels2) : a' = <<"qe", p, r>> /\ b' = <<q, s>>
                \/ \E x, y \in C1, t \in R1 : a' = <<"sgn", N(x, y, t)>> /\ b' = <<>>
                \/ \E q, r \in -2..2, t \in 0..5, s \in {-1, 1} : a' = <<"rule", q, r, t, s>> /\ b' = <<>>
Str(n) == ToString(n)
Laws == ph = 0 \/ Out \/
  (CASE a[1] = "qe" -> Exists(<<a[2], b[1]>>, <<a[3], b[2]>>) = ExistsVs(<<a[2], b[1]>>, <<a[3], b[2]>>)
    [] a[1] = "sgn" -> /\ NSgn(a[2]) = Sgn(NRan(a[2])) /\ NSgn(NNeg(a[2])) = -NSgn(a[2])
                       /\ NSgn(NMul(a[2], a[2])) = NSgn(a[2]) * NSgn(a[2])
                       /\ NSgn(PolyN(<<QSub(QMul(a[2].A, a[2].A), QMul(QMul(a[2].B, a[2].B), a[2].R)), QMul("-2", a[2].A), "1">>, a[2])) = 0
    [] a[1] = "rule" -> LET s == NSgn(N(Str(a[2] * a[5]), Str(a[3] * a[5]), Str(a[4]))) IN
                        /\ RuleEq(a[2], a[3], a[4]) = (s = 0) /\ RuleLess(a[2], a[3], a[4], a[5]) = (s < 0) /\ RuleLeq(a[2], a[3], a[4], a[5]) = (s <= 0))
=============================================================================
