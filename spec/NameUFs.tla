------------------------------- MODULE NameUFs -------------------------------
(* Uninterpreted functions over three sorts 1..3, their instances, terms and  *)
(* equalities.  A term is <<"v", k>> (variable k of sort 1 + (k-1) % 3) or     *)
(* <<"i", id>>.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(l) == {l[i] : i \in 1..Len(l)}
Begin(e) == [ufs |-> <<>>, ins |-> <<>>]
Put(f, k, v) == (k :> v) @@ f
VSort(k) == 1 + ((k - 1) % 3)
VOk(st, t) == IF t[1] = "v" THEN t[2] \in 1..6 ELSE t[2] \in DOMAIN st.ins
TSort(st, t) == IF t[1] = "v" THEN VSort(t[2]) ELSE st.ufs[st.ins[t[2]].f].cod
ArgsOk(st, f, a) == Len(a) = Len(st.ufs[f].dom) /\ \A i \in 1..Len(a) : TSort(st, a[i]) = st.ufs[f].dom[i]
RECURSIVE Cx(_, _), TVars(_, _), TUfs(_, _), Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Cx(st, t) == IF t[1] = "v" THEN 1 ELSE LET a == st.ins[t[2]].a IN 1 + Sum([i \in 1..Len(a) |-> Cx(st, a[i])], Len(a))
TVars(st, t) == IF t[1] = "v" THEN {t[2]} ELSE LET a == st.ins[t[2]].a IN UNION {TVars(st, a[i]) : i \in 1..Len(a)}
TUfs(st, t) == IF t[1] = "v" THEN {} ELSE LET x == st.ins[t[2]] IN {x.f} \cup UNION {TUfs(st, x.a[i]) : i \in 1..Len(x.a)}
Pre(st, c) ==
  CASE c.op = "uf" -> TRUE
    [] c.op = "ufview" -> c.f \in DOMAIN st.ufs
    [] c.op = "argsok" -> c.f \in DOMAIN st.ufs /\ \A i \in 1..Len(c.a) : VOk(st, c.a[i])
    [] c.op = "inst" -> c.f \in DOMAIN st.ufs /\ (\A i \in 1..Len(c.a) : VOk(st, c.a[i])) /\ ArgsOk(st, c.f, c.a)
    [] c.op = "term" -> VOk(st, c.x)
    [] c.op = "cmp" -> VOk(st, c.x) /\ VOk(st, c.y)
    [] c.op = "eqn" -> /\ VOk(st, c.x) /\ VOk(st, c.y) /\ VOk(st, c.z) /\ VOk(st, c.w)
                       /\ TSort(st, c.x) = TSort(st, c.y) /\ TSort(st, c.z) = TSort(st, c.w)
    [] OTHER -> FALSE
Ident(tab, id, c) == IF \E i \in DOMAIN tab : tab[i] = c THEN id = CHOOSE i \in DOMAIN tab : tab[i] = c ELSE id > 0 /\ id \notin DOMAIN tab
Ok(st, e) ==
  LET r == e.r IN
  CASE e.op = "uf" -> Ident(st.ufs, r, [n |-> e.n, dom |-> e.dom, cod |-> e.cod])
    [] e.op = "ufview" -> LET u == st.ufs[e.f] IN r.n = u.n /\ r.dom = u.dom /\ r.cod = u.cod
    [] e.op = "argsok" -> r = ArgsOk(st, e.f, e.a)
    [] e.op = "inst" -> Ident(st.ins, r, [f |-> e.f, a |-> e.a])
    [] e.op = "term" -> /\ r.sort = TSort(st, e.x) /\ r.cx = Cx(st, e.x) /\ Set(r.vars) = TVars(st, e.x) /\ Set(r.ufs) = TUfs(st, e.x)
                        /\ r.isv = (e.x[1] = "v") /\ r.isf = (e.x[1] = "i")
                        /\ (e.x[1] = "i" => r.f = st.ins[e.x[2]].f /\ r.a = st.ins[e.x[2]].a)
    [] e.op = "cmp" -> /\ r.eq = (e.x = e.y) /\ r.ne = ~r.eq /\ Cardinality({k \in {1, 2, 3} : <<r.lt, r.eq, r.gt>>[k]}) = 1 /\ (r.eq => r.hash)
    [] e.op = "eqn" -> \* x = y (negated if n) against z = w (negated if m)
         /\ r.neg = e.n /\ {r.l, r.r} = {e.x, e.y}
         /\ r.eq = (e.n = e.m /\ {e.x, e.y} = {e.z, e.w}) /\ r.ne = ~r.eq /\ (r.eq => r.hash)
         /\ Cardinality({k \in {1, 2, 3} : <<r.lt, r.eq, r.gt>>[k]}) = 1
         /\ r.cx = 1 + Cx(st, e.x) + Cx(st, e.y) /\ r.nneg = ~e.n /\ r.nsame /\ r.inv = ~e.n
         /\ Set(r.vars) = TVars(st, e.x) \cup TVars(st, e.y) /\ Set(r.uvars) = Set(r.vars) /\ Set(r.ufs) = TUfs(st, e.x) \cup TUfs(st, e.y)
    [] OTHER -> TRUE
Next(st, e) ==
  CASE e.op = "uf" -> [st EXCEPT !.ufs = Put(@, e.r, [n |-> e.n, dom |-> e.dom, cod |-> e.cod])]
    [] e.op = "inst" -> [st EXCEPT !.ins = Put(@, e.r, [f |-> e.f, a |-> e.a])]
    [] OTHER -> st
=============================================================================
