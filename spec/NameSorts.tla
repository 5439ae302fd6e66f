------------------------------ MODULE NameSorts ------------------------------
(* Sorts.  table maps identifiers to contents and types; a sort is equal to   *)
(* another exactly if name, parameters and indices are.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(l) == {l[i] : i \in 1..Len(l)}
Begin(e) == [table |-> <<>>, decl |-> <<>>, defs |-> <<>>, idx |-> <<>>, interp |-> <<>>]
Con(n, ps, ix) == [n |-> n, ps |-> ps, ix |-> ix]
Ids(st) == DOMAIN st.table
Has(st, c) == \E i \in Ids(st) : st.table[i].c = c
IdOf(st, c) == CHOOSE i \in Ids(st) : st.table[i].c = c
Put(f, k, v) == (k :> v) @@ f
Free(st, n) == /\ \A i \in Ids(st) : st.table[i].c.n # n
               /\ n \notin DOMAIN st.decl /\ n \notin DOMAIN st.defs
\* id is the identifier of content c, an old one if there is one.
Is(st, id, c) == IF Has(st, c) THEN id = IdOf(st, c) ELSE id > 0 /\ id \notin Ids(st)
Add(st, id, c, t) == IF Has(st, c) \/ id = 0 THEN st ELSE [st EXCEPT !.table = Put(@, id, [c |-> c, t |-> t])]
TypeIx(st, base, n) == IF Has(st, base) /\ IdOf(st, base) \in DOMAIN st.idx /\ st.idx[IdOf(st, base)].n = n THEN st.idx[IdOf(st, base)].t ELSE "u"
------------------------------------------------------------------------------
\* Expressions for the sorts an operation must return, as contents over contents ("trees"), because parts may be new.
RECURSIVE Tree(_, _)
Tree(st, id) == LET c == st.table[id].c IN [n |-> c.n, ps |-> [i \in 1..Len(c.ps) |-> Tree(st, c.ps[i])], ix |-> c.ix]
RECURSIVE Repl(_, _)
Repl(t, m) == IF t.n \in DOMAIN m THEN m[t.n] ELSE [t EXCEPT !.ps = [i \in 1..Len(t.ps) |-> Repl(t.ps[i], m)]]
\* No replaced symbol is applied to parameters or indices.
RECURSIVE Plain(_, _)
Plain(t, S) == (t.n \in S => t.ps = <<>> /\ t.ix = <<>>) /\ \A i \in 1..Len(t.ps) : Plain(t.ps[i], S)
\* An observed sort is reported with all its parts: a list of [id, c, t], parts first.
RECURSIVE Parts(_, _, _)
Parts(st, l, i) == IF i > Len(l) THEN st ELSE Parts(Add(st, l[i].id, l[i].c, l[i].t), l, i + 1)
Known(st, l) == \A i \in 1..Len(l) :
  /\ IF \E j \in Ids(st) : j = l[i].id THEN st.table[l[i].id].c = l[i].c /\ st.table[l[i].id].t = l[i].t ELSE ~Has(st, l[i].c)
  /\ \A j \in 1..Len(l) : (l[i].id = l[j].id) = (l[i].c = l[j].c)
New(st, l) == {i \in 1..Len(l) : l[i].id \notin Ids(st)}
\* The operation returned the sort with tree t; a new sort is of type ty, and new parts are uninterpreted.
RetT(st, r, t, ty) == /\ r.id > 0 /\ r.parts # <<>> /\ r.parts[Len(r.parts)].id = r.id /\ Known(st, r.parts)
                      /\ Tree(Parts(st, r.parts, 1), r.id) = t
                      /\ \A i \in New(st, r.parts) : r.parts[i].t = (IF i = Len(r.parts) THEN ty ELSE "u")
Got(st, r) == IF r.id = 0 THEN st ELSE Parts(st, r.parts, 1)
Apply(st, name, ps) == \* the tree named by name and parameters (identifiers), or <<>>
  IF ps = <<>> THEN (IF Has(st, Con(name, <<>>, <<>>)) THEN Tree(st, IdOf(st, Con(name, <<>>, <<>>)))
                     ELSE IF name \in DOMAIN st.defs /\ st.defs[name].ps = <<>> THEN Tree(st, st.defs[name].s) ELSE <<>>)
  ELSE IF name \in DOMAIN st.decl THEN (IF st.decl[name] = Len(ps) THEN [n |-> name, ps |-> [i \in 1..Len(ps) |-> Tree(st, ps[i])], ix |-> <<>>] ELSE <<>>)
  ELSE IF name \in DOMAIN st.defs /\ Len(st.defs[name].ps) = Len(ps)
       THEN Repl(Tree(st, st.defs[name].s), [p \in Set(st.defs[name].ps) |-> Tree(st, ps[CHOOSE i \in 1..Len(ps) : st.defs[name].ps[i] = p])])
  ELSE <<>>
Ret(st, r, t, ty) == IF t = <<>> THEN r.id = 0 ELSE RetT(st, r, t, ty)
WithIx(t, ix) == [t EXCEPT !.ix = @ \o ix]
\* The type of the sort with tree t, its base known to st or new (then not indexable).
HasTree(st, t) == \E i \in Ids(st) : Tree(st, i) = t
TypeOf(st, t) == IF t.ix = <<>> THEN "u"
                 ELSE LET b == [t EXCEPT !.ix = <<>>] IN
                      IF HasTree(st, b) THEN (LET i == CHOOSE i \in Ids(st) : Tree(st, i) = b IN
                                              IF i \in DOMAIN st.idx /\ st.idx[i].n = Len(t.ix) THEN st.idx[i].t ELSE "u") ELSE "u"
------------------------------------------------------------------------------
InIds(st, l) == \A i \in 1..Len(l) : l[i] \in Ids(st)
MapOf(st, l) == [n \in {l[i].n : i \in 1..Len(l)} |-> Tree(st, l[CHOOSE i \in 1..Len(l) : l[i].n = n].s)]
Distinct(l) == Cardinality(Set(l)) = Len(l)
Pre(st, c) ==
  CASE c.op = "define" -> c.s \in Ids(st) /\ Distinct(c.ps) /\ Plain(Tree(st, c.s), Set(c.ps))
    [] c.op = "add" -> Free(st, c.n) /\ InIds(st, c.ps)
    [] c.op = "addi" -> Free(st, c.n) /\ c.t \notin DOMAIN st.interp /\ InIds(st, c.ps)
    [] c.op = "interp" -> c.t \in DOMAIN st.interp
    [] c.op \in {"indexable", "index", "view"} -> c.s \in Ids(st)
    [] c.op = "get" -> InIds(st, c.ps) /\ (c.ix # <<>> => Apply(st, c.n, c.ps) # <<>>)
    [] c.op = "replace" -> /\ c.s \in Ids(st) /\ \A i \in 1..Len(c.m) : c.m[i].s \in Ids(st)
                           /\ Distinct([i \in 1..Len(c.m) |-> c.m[i].n]) /\ Plain(Tree(st, c.s), {c.m[i].n : i \in 1..Len(c.m)})
    [] OTHER -> TRUE
RECURSIVE Joined(_, _)
Joined(f, k) == IF k = 0 THEN "" ELSE Joined(f, k - 1) \o " " \o f[k]
RECURSIVE Text(_)
Text(t) == LET core == IF t.ps = <<>> THEN t.n ELSE "(" \o t.n \o Joined([i \in 1..Len(t.ps) |-> Text(t.ps[i])], Len(t.ps)) \o ")"
           IN  IF t.ix = <<>> THEN core ELSE "(_ " \o core \o Joined([i \in 1..Len(t.ix) |-> ToString(t.ix[i])], Len(t.ix)) \o ")"
GetTree(st, c) == LET t == Apply(st, c.n, c.ps) IN IF t = <<>> THEN t ELSE WithIx(t, c.ix)
Ok(st, e) ==
  LET r == e.r IN
  CASE e.op = "declare" -> /\ r.ok = Free(st, e.n)
                           /\ (r.ok /\ e.k = 0) => RetT(st, r, Con(e.n, <<>>, <<>>), "u")
    [] e.op = "define" -> r = Free(st, e.n)
    [] e.op \in {"add", "addi"} -> RetT(st, r, [n |-> e.n, ps |-> [i \in 1..Len(e.ps) |-> Tree(st, e.ps[i])], ix |-> <<>>], e.t)
    [] e.op = "interp" -> r = st.interp[e.t]
    [] e.op = "get" -> LET t == GetTree(st, e) IN Ret(st, r, t, IF t = <<>> THEN "u" ELSE TypeOf(st, t))
    [] e.op = "index" -> LET t == WithIx(Tree(st, e.s), e.ix) IN RetT(st, r, t, TypeOf(st, t))
    [] e.op = "replace" -> LET t == Repl(Tree(st, e.s), MapOf(st, e.m)) IN RetT(st, r, t, TypeOf(st, t))
    [] e.op = "view" -> LET x == st.table[e.s] IN /\ r.n = x.c.n /\ r.ps = x.c.ps /\ r.ix = x.c.ix /\ r.arity = Len(x.c.ps) /\ r.t = x.t
                                                  /\ r.interp = (x.t # "u") /\ r.text = Text(Tree(st, e.s))
    [] e.op = "export" -> Set(r) = {"(declare-sort " \o n \o " " \o ToString(st.decl[n]) \o ")" : n \in DOMAIN st.decl} /\ Distinct(r)
    [] OTHER -> TRUE
Next(st, e) ==
  CASE e.op = "declare" -> IF e.r.ok THEN [Got(st, e.r) EXCEPT !.decl = Put(@, e.n, e.k)] ELSE st
    [] e.op = "define" -> IF e.r THEN [st EXCEPT !.defs = Put(@, e.n, [ps |-> e.ps, s |-> e.s])] ELSE st
    [] e.op = "addi" -> [Got(st, e.r) EXCEPT !.interp = Put(@, e.t, e.r.id)]
    [] e.op = "indexable" -> [st EXCEPT !.idx = Put(@, e.s, [n |-> e.k, t |-> e.t])]
    [] e.op \in {"add", "get", "index", "replace"} -> Got(st, e.r)
    [] OTHER -> st
=============================================================================
