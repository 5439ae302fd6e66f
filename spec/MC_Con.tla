------------------------------- MODULE MC_Con --------------------------------
(* Laws of constraints for all pairs of small linear and quadratic ones in    *)
(* one variable; the pairs are also printed, as inputs for the library.       *)
EXTENDS Con, TLC, Json
CONSTANTS Out, Typ
VARIABLES a, b, phase
Rels == {"=", "!=", "<", "<=", ">", ">="}
Cf == {"-2", "-1", "1", "2"}
\* <<quadratic, linear, constant coefficient, relation>>
Univ == {<<"0", k, d, r>> : k \in Cf, d \in {"-1", "0", "1", "2"}, r \in Rels}
        \cup {<<k, "0", d, r>> : k \in {"-1", "2"}, d \in {"-1", "0", "1"}, r \in Rels}
Poly1(c) == PAdd(PMono(<<2>>, c[1]), PAdd(PMono(<<1>>, c[2]), PConst(1, c[3])))
G == GridOf(1, <<Typ>>)
Init == a \in Univ /\ b = <<>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ a' = a /\ b' \in Univ /\ (Out => PrintT("HIST" \o ToJson(<<a, b'>>)))
Turn(r) == CASE r = "<" -> ">" [] r = "<=" -> ">=" [] r = ">" -> "<" [] r = ">=" -> "<=" [] OTHER -> r
Laws == (phase = 1 /\ ~Out) =>
  LET p == Poly1(a)  q == Poly1(b)  A(x) == Holds(1, p, a[4], x)  B(x) == Holds(1, q, b[4], x) IN
  /\ \A x \in G : A(x) <=> ~Holds(1, p, Inv(a[4]), x)
  /\ Inv(Inv(a[4])) = a[4]
  /\ Same(1, p, a[4], PNeg(p), Turn(a[4]), G) /\ Same(1, p, a[4], PScale("7/2", p), a[4], G)
  \* the product of two left-hand sides tells whether both have the same sign
  /\ \A x \in G : (Rel(PEval(1, PMul(p, q), x), ">") <=> (Rel(PEval(1, p, x), ">") <=> Rel(PEval(1, q, x), ">"))) \/ PEval(1, PMul(p, q), x) = "0"
  \* constraints in integers: p < 0 and p + 1 <= 0 agree if the coefficients are integral
  /\ Typ = "i" => Same(1, p, "<", PAdd(p, PConst(1, "1")), "<=", G)
=============================================================================
