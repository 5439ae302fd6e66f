------------------------------ MODULE ContCache -----------------------------
(* Value cache (C25).  g: entries [v, refs, aux] that may be present, n: how  *)
(* often each reference is registered, last: reference of the latest cache    *)
(* call.  An entry of which no reference is registered may be evicted, but    *)
(* only while the cache is full; gone tells that it may have been.  aux is the set of possible payloads, mrefs  *)
(* are references the entry has unless they were evicted before.              *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [g |-> {}, n |-> [r \in {} |-> 0], last |-> 0, hs |-> <<>>, max |-> e.max]
Cnt(st, r) == IF r \in DOMAIN st.n THEN st.n[r] ELSE 0
InUse(st, g) == \E r \in g.refs : Cnt(st, r) > 0
Full(st) == Cardinality(st.g) >= st.max
Of(st, v) == {g \in st.g : g.v = v}
At(st, r) == {g \in st.g : r \in g.refs}
Ref(st, c) == st.hs[c.h]
Pre(st, c) ==
  CASE c.op = "cache" -> TRUE
    [] c.op = "decay" -> TRUE
    [] c.op = "reg" -> c.h <= Len(st.hs) /\ (Ref(st, c) = st.last \/ Cnt(st, Ref(st, c)) > 0)
    [] OTHER -> c.h <= Len(st.hs) /\ Cnt(st, Ref(st, c)) > 0
One(S) == CHOOSE x \in S : TRUE
\* Entries that a new entry with value v at reference r pushes out.
Gone(st, v, r) == Of(st, v) \cup At(st, r)
Ok(st, e) ==
  CASE e.op = "cache" ->
         IF e.r.new THEN /\ e.r.ref > 0
                         /\ \A g \in Gone(st, e.v, e.r.ref) : ~InUse(st, g) /\ (g.gone \/ Full(st))
         ELSE \E g \in Of(st, e.v) : e.r.ref \in g.refs \cup g.mrefs
    [] e.op = "get" -> LET g == One(At(st, Ref(st, e))) IN e.r.v = g.v /\ e.r.aux \in g.aux
    [] OTHER -> TRUE
Bump(st, r, d) == [x \in DOMAIN st.n \cup {r} |-> IF x = r THEN Cnt(st, r) + d ELSE st.n[x]]
\* Whatever is unused may be evicted while the cache is full.
Evict(st) == IF Full(st) THEN [st EXCEPT !.g = {IF InUse(st, g) THEN g ELSE [g EXCEPT !.gone = TRUE] : g \in @}] ELSE st
Next0(st, e) ==
  CASE e.op = "cache" ->
         LET s0 == Evict(st)  s1 == [s0 EXCEPT !.hs = Append(@, e.r.ref), !.last = e.r.ref] IN
         IF e.r.new THEN [s1 EXCEPT !.g = {[g EXCEPT !.mrefs = @ \ {e.r.ref}] : g \in @ \ Gone(s0, e.v, e.r.ref)} \cup {[v |-> e.v, refs |-> {e.r.ref}, mrefs |-> {}, aux |-> {e.aux}, gone |-> FALSE]}]
         ELSE LET g == One(Of(s0, e.v)) IN
              [s1 EXCEPT !.g = (@ \ {g}) \cup {[g EXCEPT !.aux = IF e.upd THEN {e.aux} ELSE @, !.gone = FALSE, !.refs = @ \cup {e.r.ref}, !.mrefs = @ \ {e.r.ref}]}]
    [] e.op = "reg" -> [st EXCEPT !.n = Bump(st, Ref(st, e), 1)]
    [] e.op = "dereg" -> [st EXCEPT !.n = Bump(st, Ref(st, e), -1), !.last = 0]
    [] e.op = "get" -> LET g == One(At(st, Ref(st, e))) IN [st EXCEPT !.g = (@ \ {g}) \cup {[g EXCEPT !.aux = {e.r.aux}]}]
    [] e.op = "rehash" ->
         LET g == One(At(st, Ref(st, e)))  o == Of(st, e.v) \ {g} IN
         IF o = {} THEN [st EXCEPT !.g = (@ \ {g}) \cup {[g EXCEPT !.v = e.v]}]
         ELSE LET h == One(o) IN
              [st EXCEPT !.g = (@ \ {g, h}) \cup
                 {[v |-> e.v, refs |-> IF h.gone THEN g.refs ELSE g.refs \cup h.refs, mrefs |-> g.mrefs \cup h.mrefs \cup (IF h.gone THEN h.refs ELSE {}), aux |-> IF InUse(st, h) THEN h.aux ELSE h.aux \cup g.aux, gone |-> FALSE]}]
    [] OTHER -> st
Next(st, e) == IF e.op = "dereg" THEN Evict(Next0(st, e)) ELSE Next0(st, e)
=============================================================================
