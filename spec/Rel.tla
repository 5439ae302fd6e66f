--------------------------------- MODULE Rel ---------------------------------
(* Relations to zero, signs and sign changes (C30).                           *)
EXTENDS Integers, Sequences, FiniteSets, Q
Rels == {"=", "!=", "<", "<=", ">", ">="}
\* A relation is the set of signs of the left minus the right side that satisfy it.
Signs(r) == CASE r = "=" -> {0} [] r = "!=" -> {-1, 1} [] r = "<" -> {-1} [] r = "<=" -> {-1, 0} [] r = ">" -> {1} [] r = ">=" -> {0, 1}
RelOf(S) == CHOOSE r \in Rels : Signs(r) = S
Inverse(r) == RelOf({-1, 0, 1} \ Signs(r))
Turned(r) == RelOf({-s : s \in Signs(r)})
Strict(r) == 0 \notin Signs(r)
Holds(s, r) == s \in Signs(r)
RECURSIVE NonZero(_)
NonZero(l) == IF l = <<>> THEN <<>> ELSE IF Head(l) = 0 THEN NonZero(Tail(l)) ELSE <<Head(l)>> \o NonZero(Tail(l))
Variations(l) == LET n == NonZero(l) IN Cardinality({i \in 1..(Len(n) - 1) : n[i] # n[i + 1]})
Begin(e) == [x |-> 0]
Throws(st, e) == FALSE
SignName(s) == IF s = 0 THEN "ZERO" ELSE IF s = 1 THEN "POSITIVE" ELSE "NEGATIVE"
Ok(st, e) == LET r == e.r IN
  CASE e.op = "rel" -> r.inv = Inverse(e.rel) /\ r.turn = Turned(e.rel) /\ r.strict = Strict(e.rel) /\ r.weak = ~Strict(e.rel) /\ r.str = e.rel /\ r.str2 = e.rel
    [] e.op = "pair" -> (r.eq = (e.rel = e.rel2)) /\ (r.eq => r.heq)
    [] e.op = "sign" -> r.holds = Holds(e.s, e.rel) /\ r.name = SignName(e.s)
    [] e.op = "num" -> r.sgn = QSgn(e.c) /\ r.holds = Holds(QSgn(e.c), e.rel)
    [] e.op = "cmp" -> LET s == QSgn(QSub(e.a, e.b)) IN r.holds = Holds(s, e.rel) /\ r.swapped = Holds(s, e.rel) /\ r.neg = ~Holds(s, e.rel)
    [] e.op = "var" -> r.v = Variations(e.l) /\ r.f = Variations(e.l)
Allowed(st, e) == Ok(st, e)
After(st, e) == st
=============================================================================
