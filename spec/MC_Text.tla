------------------------------ MODULE MC_Text ------------------------------
(* All texts of up to Depth tokens over a small alphabet that spell a         *)
(* polynomial.  The reading is compositional: sums, products, signs and       *)
(* parentheses of texts mean sums, products, negations and the same; and      *)
(* every polynomial is read back from the text that spells its terms.         *)
(* With Out, the texts as inputs.                                             *)
EXTENDS Text, Json
CONSTANTS Out, Depth
VARIABLES toks, h
O(s) == <<"o", s, "">>
Alphabet == {<<"n", "2", "2">>, <<"v", "x", "1">>, <<"v", "y", "2">>, O("+"), O("-"), O("*"), O("("), O(")"), O("^"), O("/")}
NV == 3
Spelling(t) == ParseAll(NV, t).ok
\* Texts that cannot be continued to a valid one are not followed.
Open(t) == Cardinality({i \in DOMAIN t : IsOp(t, i, "(")}) - Cardinality({i \in DOMAIN t : IsOp(t, i, ")")})
Starts(k) == k[1] # "o" \/ k[2] \in {"(", "+", "-"}
Fits(t, k) == IF t = <<>> THEN Starts(k)
              ELSE LET z == t[Len(t)] IN
                   IF z[1] = "o" /\ z[2] = "^" THEN k[1] = "n"
                   ELSE IF z[1] = "o" /\ z[2] # ")" THEN (IF z[2] = "/" THEN k[1] = "n" ELSE Starts(k))
                   ELSE (k[1] = "o" /\ k[2] # "(") \/ (z[1] = "n" /\ k[1] = "v")
Sep(t) == [i \in DOMAIN t |-> IF i < Len(t) /\ t[i][1] # "o" /\ t[i + 1][1] # "o" THEN " " ELSE ""]
Init == toks = <<>> /\ h = <<>>
Next == /\ Len(toks) < Depth /\ UNCHANGED h
        /\ \E k \in Alphabet : /\ Fits(toks, k) /\ Open(Append(toks, k)) >= 0 /\ Open(Append(toks, k)) <= Depth - Len(toks)
                               /\ toks' = Append(toks, k)
                               /\ (Out /\ Spelling(toks') => PrintT("HIST" \o ToJson(<<[op |-> "ppoly", toks |-> toks', seps |-> Sep(toks'), known |-> 3]>>)))
M(t) == ParseAll(NV, t).p
Paren(t) == <<O("(")>> \o t \o <<O(")")>>
Others == {<<<<"n", "2", "2">>>>, <<<<"v", "x", "1">>, O("+"), <<"v", "y", "2">>>>, <<O("-"), <<"v", "x", "1">>>>}
\* The text that spells the terms.
RECURSIVE ShowMono(_, _)
ShowMono(m, i) == IF i > NV THEN <<>> ELSE IF m[i] = 0 THEN ShowMono(m, i + 1)
                  ELSE <<O("*"), <<"v", ToString(i), ToString(i)>>, O("^"), <<"n", ToString(m[i]), ToString(m[i])>>>> \o ShowMono(m, i + 1)
ShowNum(c) == IF QSgn(c) < 0 THEN <<O("("), O("-"), <<"n", QNeg(c), QNeg(c)>>, O(")")>> ELSE <<<<"n", c, c>>>>
RECURSIVE Show(_)
Show(p) == IF DOMAIN p = {} THEN <<<<"n", "0", "0">>>>
           ELSE LET m == CHOOSE m \in DOMAIN p : TRUE IN ShowNum(p[m]) \o ShowMono(m, 1) \o <<O("+")>> \o Show([x \in DOMAIN p \ {m} |-> p[x]])
Laws == (~Out /\ Spelling(toks)) =>
  /\ M(Paren(toks)) = M(toks)
  /\ M(Show(M(toks))) = M(toks)
  /\ \A u \in Others :
       /\ M(toks \o <<O("+")>> \o u) = PAdd(M(toks), M(u))
       /\ M(Paren(toks) \o <<O("*")>> \o Paren(u)) = PMul(M(toks), M(u))
       /\ M(u \o <<O("-")>> \o Paren(toks)) = PSub(M(u), M(toks))
       /\ M(u \o <<O("-")>> \o toks) = (LET z == M(<<<<"n", "0", "0">>, O("-")>> \o toks) IN PAdd(M(u), z))
=============================================================================
