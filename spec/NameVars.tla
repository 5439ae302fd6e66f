------------------------------ MODULE NameVars -------------------------------
(* The variable pool and sets of variables.  vars lists every variable ever   *)
(* handed out in this session; a variable is live until the pool is cleared,  *)
(* persistent ones for ever.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Types == {"b", "r", "i", "u", "bv"}
Set(l) == {l[i] : i \in 1..Len(l)}
Begin(e) == [vars |-> <<>>, nr |-> [t \in Types |-> -1], prefix |-> "_", vs |-> [k \in 1..3 |-> {}], flt |-> [k \in 1..3 |-> Types]]
Live(st) == {h \in 1..Len(st.vars) : st.vars[h].live}
Named(st, n) == {h \in Live(st) : st.vars[h].name = n}
AutoName(st, v) == st.prefix \o v.t \o "_" \o ToString(v.id)
NameOf(st, h) == LET v == st.vars[h] IN IF v.name = "" THEN AutoName(st, v) ELSE v.name
LiveAll(st, l) == \A i \in 1..Len(l) : l[i] \in Live(st)
Keep(st, S, T) == {h \in S : st.vars[h].t \in T}
\* Two handles denote the same variable only if they are the same handle.
Pre(st, c) ==
  CASE c.op \in {"view"} -> c.h \in Live(st)
    [] c.op = "rename" -> c.h \in Live(st) /\ ~st.vars[c.h].pers
    [] c.op = "cmp" -> c.h \in Live(st) /\ c.g \in Live(st)
    [] c.op \in {"vadd", "verase", "vhas", "vinit"} -> LiveAll(st, c.l)
    [] OTHER -> TRUE
Ok(st, e) ==
  LET r == e.r IN
  CASE e.op = "fresh" -> /\ r.t = e.t /\ r.rank = 0 /\ r.id > 0
                         /\ \A h \in Live(st) : ~(st.vars[h].t = e.t /\ st.vars[h].id = r.id)
                         /\ st.nr[e.t] >= 0 => r.nr = st.nr[e.t] + 1
    [] e.op = "view" -> LET v == st.vars[e.h] IN /\ r.t = v.t /\ r.id = v.id /\ r.name = NameOf(st, e.h) /\ r.text = NameOf(st, e.h)
                                                 /\ r.auto = AutoName(st, v) /\ r.safe = v.t \o ToString(v.id)
    [] e.op = "find" -> IF Named(st, e.name) = {} THEN r = 0 ELSE r \in Named(st, e.name)
    [] e.op = "nr" -> st.nr[e.t] >= 0 => r = st.nr[e.t]
    [] e.op = "cmp" -> /\ r.eq = (e.h = e.g) /\ r.ne = ~r.eq /\ Cardinality({x \in {1, 2, 3} : <<r.lt, r.eq, r.gt>>[x]}) = 1
                       /\ r.le = (r.lt \/ r.eq) /\ r.ge = (r.gt \/ r.eq) /\ (r.eq => r.hash)
    [] e.op = "vlist" -> LET S == st.vs[e.k] IN /\ Set(r.l) = S /\ Len(r.l) = Cardinality(S) /\ r.n = Cardinality(S) /\ r.empty = (S = {}) /\ r.sorted
                                                /\ Set(r.set) = S
    [] e.op = "vhas" -> r = (e.l[1] \in st.vs[e.k])
    [] e.op = "vfilter" -> Set(r) = Keep(st, st.vs[e.k], Set(e.f)) /\ Len(r) = Cardinality(Set(r))
    [] e.op = "veq" -> r = (st.vs[e.k] = st.vs[e.j])
    [] OTHER -> TRUE
Next(st, e) ==
  CASE e.op = "fresh" -> [st EXCEPT !.vars = Append(@, [t |-> e.t, id |-> e.r.id, name |-> e.name, orig |-> e.name, live |-> TRUE, pers |-> e.pers]), !.nr[e.t] = e.r.nr]
    [] e.op = "rename" -> [st EXCEPT !.vars[e.h].name = e.name]
    [] e.op = "prefix" -> [st EXCEPT !.prefix = e.p]
    [] e.op = "nr" -> [st EXCEPT !.nr[e.t] = e.r]
    [] e.op = "clear" -> [st EXCEPT !.vars = [h \in 1..Len(@) |-> [@[h] EXCEPT !.live = @ /\ st.vars[h].pers, !.name = st.vars[h].orig]],
                                    !.nr = [t \in Types |-> -1], !.vs = [k \in 1..3 |-> {}], !.flt = [k \in 1..3 |-> Types]]
    [] e.op = "vnew" -> [st EXCEPT !.vs[e.k] = {}, !.flt[e.k] = Set(e.f)]
    [] e.op = "vinit" -> [st EXCEPT !.vs[e.k] = Keep(st, Set(e.l), Set(e.f)), !.flt[e.k] = Set(e.f)]
    [] e.op = "vadd" -> [st EXCEPT !.vs[e.k] = @ \cup Keep(st, Set(e.l), st.flt[e.k])]
    [] e.op = "verase" -> [st EXCEPT !.vs[e.k] = @ \ {e.l[1]}]
    [] e.op = "vclear" -> [st EXCEPT !.vs[e.k] = {}]
    [] e.op = "vcopy" -> [st EXCEPT !.vs[e.k] = st.vs[e.j], !.flt[e.k] = st.flt[e.j]]
    [] OTHER -> st
=============================================================================
