------------------------------- MODULE MC_Res -------------------------------
(* All pairs of small polynomials: the determinants agree with the Euclidean  *)
(* algorithm.  With Out they are also inputs for the implementation.          *)
EXTENDS Res, UniLib, TLC, Json
CONSTANTS Out, Cs, D
VARIABLES c, phase
Polys == UNION {{p \in [1..(d + 1) -> Cs] : p[d + 1] # "0"} : d \in 1..D}
Init == c \in Polys \X Polys /\ phase = 0
Wire(p) == [i \in DOMAIN p |-> IF p[i] = "0" THEN <<>> ELSE <<<<<<0>>, p[i]>>>>]
St(k) == CASE k = 0 -> "generic" [] k = 1 -> "lazard" [] k = 2 -> "ducos"
Pts == <<<<"0">>>>
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED c
        /\ Out => PrintT("HIST" \o ToJson(
             [k \in 1..3 |-> [op |-> "res", p |-> Wire(c[1]), q |-> Wire(c[2]), st |-> St(k - 1), pts |-> Pts]] \o
             [k \in 1..3 |-> [op |-> IF k = 2 THEN "psc" ELSE "sub", p |-> Wire(c[1]), q |-> Wire(c[2]), st |-> St(k - 1), pts |-> Pts]] \o
             (IF c[1] = c[2] THEN [k \in 1..3 |-> [op |-> "disc", p |-> Wire(c[1]), st |-> St(k - 1), pts |-> Pts]] ELSE <<>>)))
Laws == (phase = 1 /\ ~Out) =>
  LET p == IF Longer(c[1], c[2]) THEN c[1] ELSE c[2]
      q == IF Longer(c[1], c[2]) THEN c[2] ELSE c[1]
      g == UDeg(UGcd(p, q))
  IN  /\ (Resultant(p, q) = "0") = (g > 0)
      /\ \A j \in 0..(Deg(q) - 1) : j < g => \A k \in 1..(j + 1) : SubRes(p, q, j)[k] = "0"
      /\ g < Deg(q) => LET s == SubRes(p, q, g) IN UAssoc(UTrim(s), UGcd(p, q))
      /\ Resultant(p, q) = (IF (Deg(p) * Deg(q)) % 2 = 0 THEN Resultant(q, p) ELSE QNeg(Resultant(q, p)))
      /\ (Disc(p) = "0") = ~UIsSqFree(p)
      /\ QMul(Disc(p), p[Len(p)]) = (IF Deg(p) = 1 THEN p[2] ELSE Resultant(p, Deriv(p)))
=============================================================================
