------------------------------ MODULE MC_Names -------------------------------
(* A reference variable pool and a reference sort table, run against the      *)
(* specification over all short histories; longer histories for replay.       *)
EXTENDS Names, Json, Randomization, FiniteSets
CONSTANTS Kind, Depth, Width
VARIABLES st, conc, hist, done, ok
Init == st = Begin([kind |-> Kind]) /\ conc = [r |-> 1, i |-> 1] /\ hist = <<>> /\ done = FALSE /\ ok = TRUE
------------------------------------------------------------------------------
VCmds == {[op |-> "fresh", t |-> t, name |-> n, pers |-> p] : t \in {"r", "i"}, n \in {"", "x", "y"}, p \in BOOLEAN}
         \cup {[op |-> "rename", h |-> h, name |-> n] : h \in 1..4, n \in {"x", "z"}}
         \cup {[op |-> "find", name |-> n] : n \in {"x", "y", "z"}} \cup {[op |-> "view", h |-> h] : h \in 1..6}
         \cup {[op |-> "cmp", h |-> h, g |-> g] : h \in 1..4, g \in 1..4} \cup {[op |-> "clear"]}
MaxId(t) == LET P == {h \in 1..Len(st.s.vars) : st.s.vars[h].pers /\ st.s.vars[h].t = t} IN
            IF P = {} THEN 0 ELSE CHOOSE m \in {st.s.vars[h].id : h \in P} : \A h \in P : st.s.vars[h].id <= m
VRes(c) == CASE c.op = "fresh" -> [t |-> c.t, rank |-> 0, id |-> conc[c.t], nr |-> conc[c.t]]
             [] c.op = "find" -> LET N == V!Named(st.s, c.name) IN IF N = {} THEN 0 ELSE CHOOSE h \in N : TRUE
             [] c.op = "view" -> LET v == st.s.vars[c.h] IN [t |-> v.t, id |-> v.id, name |-> V!NameOf(st.s, c.h), text |-> V!NameOf(st.s, c.h), auto |-> V!AutoName(st.s, v), safe |-> v.t \o ToString(v.id)]
             [] c.op = "cmp" -> [lt |-> c.h < c.g, eq |-> c.h = c.g, gt |-> c.h > c.g, le |-> c.h <= c.g, ge |-> c.h >= c.g, ne |-> c.h # c.g, hash |-> c.h = c.g]
             [] OTHER -> 0
VConc(c) == CASE c.op = "fresh" -> [conc EXCEPT ![c.t] = @ + 1] [] c.op = "clear" -> [r |-> MaxId("r") + 1, i |-> MaxId("i") + 1] [] OTHER -> conc
------------------------------------------------------------------------------
Seqs(D, n) == UNION {[1..k -> D] : k \in 0..n}
SCmds == {[op |-> "declare", n |-> n, k |-> k] : n \in {"A", "B"}, k \in 0..2}
         \cup {[op |-> "define", n |-> n, ps |-> ps, s |-> s] : n \in {"D", "B"}, ps \in {<<>>, <<"X">>, <<"X", "Y">>}, s \in 1..4}
         \cup {[op |-> "add", n |-> n, ps |-> ps, t |-> t] : n \in {"X", "Int"}, ps \in {<<>>, <<1>>}, t \in {"u", "i"}}
         \cup {[op |-> "indexable", s |-> s, k |-> 1, t |-> "bv"] : s \in 1..3}
         \cup {[op |-> "index", s |-> s, ix |-> ix] : s \in 1..4, ix \in {<<>>, <<3>>, <<3, 3>>}}
         \cup {[op |-> "get", n |-> n, ps |-> ps, ix |-> ix] : n \in {"A", "B", "D", "X"}, ps \in {<<>>, <<1>>, <<2>>, <<1, 2>>}, ix \in {<<>>, <<3>>}}
         \cup {[op |-> "replace", s |-> s, m |-> <<[n |-> "X", s |-> u]>>] : s \in 1..5, u \in 1..3} \cup {[op |-> "view", s |-> s] : s \in 1..6}
\* Entering a tree into a table, parts first; the result lists all parts.
RECURSIVE Enter(_, _, _), EnterAll(_, _, _)
EnterAll(s, ts, k) == IF k > Len(ts) THEN [s |-> s, ids |-> <<>>, parts |-> <<>>]
                      ELSE LET a == Enter(s, ts[k], "u")  b == EnterAll(a.s, ts, k + 1) IN [s |-> b.s, ids |-> <<a.id>> \o b.ids, parts |-> a.parts \o b.parts]
Enter(s, t, ty) == LET p == EnterAll(s, t.ps, 1)  c == S!Con(t.n, p.ids, t.ix)
                       id == IF S!Has(p.s, c) THEN S!IdOf(p.s, c) ELSE Cardinality(S!Ids(p.s)) + 1
                       s2 == S!Add(p.s, id, c, ty) IN
                   [s |-> s2, id |-> id, parts |-> p.parts \o <<[id |-> id, c |-> c, t |-> s2.table[id].t]>>]
SRet(t, ty) == IF t = <<>> THEN [id |-> 0, parts |-> <<>>] ELSE LET x == Enter(st.s, t, ty) IN [id |-> x.id, parts |-> x.parts]
SRes(c) ==
  CASE c.op = "declare" -> LET f == S!Free(st.s, c.n) IN [ok |-> f] @@ (IF f /\ c.k = 0 THEN SRet(S!Con(c.n, <<>>, <<>>), "u") ELSE [id |-> 0, parts |-> <<>>])
    [] c.op = "define" -> S!Free(st.s, c.n)
    [] c.op = "add" -> SRet([n |-> c.n, ps |-> [i \in 1..Len(c.ps) |-> S!Tree(st.s, c.ps[i])], ix |-> <<>>], c.t)
    [] c.op = "get" -> LET t == S!GetTree(st.s, c) IN SRet(t, IF t = <<>> THEN "u" ELSE S!TypeOf(st.s, t))
    [] c.op = "index" -> LET t == S!WithIx(S!Tree(st.s, c.s), c.ix) IN SRet(t, S!TypeOf(st.s, t))
    [] c.op = "replace" -> LET t == S!Repl(S!Tree(st.s, c.s), S!MapOf(st.s, c.m)) IN SRet(t, S!TypeOf(st.s, t))
    [] c.op = "view" -> LET x == st.s.table[c.s] IN [n |-> x.c.n, ps |-> x.c.ps, ix |-> x.c.ix, arity |-> Len(x.c.ps), t |-> x.t, interp |-> x.t # "u", text |-> S!Text(S!Tree(st.s, c.s))]
    [] OTHER -> 0
Cmds == IF Kind = "vars" THEN VCmds ELSE SCmds
Do(c) == LET e == c @@ [r |-> IF Kind = "vars" THEN VRes(c) ELSE SRes(c)] IN
         /\ Pre(st, c) /\ ok' = Allowed(st, e) /\ st' = After(st, e) /\ conc' = (IF Kind = "vars" THEN VConc(c) ELSE conc)
XNext == Len(hist) < Depth /\ hist' = Append(hist, 0) /\ UNCHANGED done /\ \E c \in {x \in Cmds : x.op \notin {"view", "cmp", "find"}} : Do(c)
GNext == \/ /\ Len(hist) < Depth /\ UNCHANGED done /\ \E c \in RandomSubset(Width, Cmds) : Do(c) /\ hist' = Append(hist, c)
         \/ Len(hist) = Depth /\ ~done /\ PrintT("HIST" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<st, conc, hist, ok>>
------------------------------------------------------------------------------
\* The specification admits the reference, and identities are unique.
Inv == /\ ok
       /\ Kind = "vars" => LET s == st.s IN
            /\ \A h \in V!Live(s), g \in V!Live(s) : h # g => ~(s.vars[h].t = s.vars[g].t /\ s.vars[h].id = s.vars[g].id)
            /\ \A h \in 1..Len(s.vars) : s.vars[h].pers => s.vars[h].live /\ s.vars[h].name = s.vars[h].orig
       /\ Kind = "sorts" => LET s == st.s IN
            /\ \A a \in S!Ids(s), b \in S!Ids(s) : (S!Tree(s, a) = S!Tree(s, b)) = (a = b)
            /\ \A n \in DOMAIN s.decl : n \notin DOMAIN s.defs
            \* an empty replacement changes nothing
            /\ \A a \in S!Ids(s) : S!Repl(S!Tree(s, a), <<>>) = S!Tree(s, a)
=============================================================================
