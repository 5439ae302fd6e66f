--------------------------------- MODULE Mod ---------------------------------
(***************************************************************************)
(* Models (C29).  A model maps keys <<kind, number>> to values:            *)
(*   x: arithmetic variable   q rational, a algebraic number, p polynomial, *)
(*                            r root expression                             *)
(*   b: Boolean variable      b truth value, F formula                      *)
(*   v: bit vector            v                                            *)
(*   u: element of a sort     s                                            *)
(*   f: function              f table                                      *)
(* p, r and F depend on other variables; what they denote is determined by *)
(* the values these have at the time of asking.  Given a valuation of all  *)
(* variables, a model determines another one: its own entries override.    *)
(***************************************************************************)
EXTENDS RanLib, TLC
B == INSTANCE BVT
Begin(e) == [nv |-> e.nv, nb |-> e.nb, vw |-> e.vw, nu |-> e.nu, pts |-> e.pts, m |-> [i \in 1..3 |-> [k \in {} |-> 0]]]
\* ---- formulas ----------------------------------------------------------------
RelH(r, s) == CASE r = "=" -> s = 0 [] r = "!=" -> s # 0 [] r = "<" -> s < 0 [] r = "<=" -> s <= 0 [] r = ">" -> s > 0 [] r = ">=" -> s >= 0
\* Valuations: [x |-> numbers, b |-> truth values, v |-> bit vectors, u |-> elements, f |-> tables]; pts give rationals.
Point(pt) == [x |-> [i \in DOMAIN pt.x |-> Rat(pt.x[i])], b |-> pt.b, v |-> pt.v, u |-> pt.u, f |-> pt.f]
Lookup(tab, args) == LET s == {i \in DOMAIN tab : tab[i][1] = args} IN IF s = {} THEN 0 ELSE tab[CHOOSE i \in s : TRUE][2]
RECURSIVE Term(_, _)
Term(t, V) == IF t.f = 0 THEN V.u[t.u] ELSE Lookup(V.f[t.f], [i \in DOMAIN t.a |-> Term(t.a[i], V)])
\* The k-th root of the polynomial (its last variable) at rational arguments: a sequence of at most one number.
RootAtV(nv, p, k, X) ==
  LET q == PutRats(nv + 1, PSumList(p), [i \in 1..nv |-> X[i]], 1)
      l == IF PIsZero(q) THEN <<>> ELSE AllRoots(UniOf(nv + 1, q, nv + 1))
  IN  IF Len(l) < k THEN <<>> ELSE <<l[k]>>
ValNum(st, w, V) == CASE w[1] = "q" -> <<Rat(w[2])>> [] w[1] = "a" -> <<Alg(w[2], w[3], w[4])>> [] w[1] = "r" -> RootAtV(st.nv, w[2], w[3], V.x)
                         [] w[1] = "b" -> <<>>    \* a root that does not exist, after cleaning
RECURSIVE Holds(_, _, _)
Holds(st, t, V) ==
  CASE t.t = "true" -> TRUE [] t.t = "false" -> FALSE
    [] t.t = "bool" -> V.b[t.v]
    [] t.t = "con" -> RelH(t.r, SignOf(st.nv, t.p, V.x))
    [] t.t = "bv" -> B!EvalCon([rel |-> t.r, l |-> t.x, r |-> t.y], V.v)
    [] t.t = "ueq" -> (Term(t.x, V) = Term(t.y, V)) # t.neg
    [] t.t \in {"vc", "va"} -> LET l == ValNum(st, t.p, V) IN (l # <<>> /\ RelH(t.r, Cmp(V.x[t.v], l[1]))) # t.neg
    [] t.t = "not" -> ~Holds(st, t.a[1], V)
    [] t.t = "and" -> \A i \in DOMAIN t.a : Holds(st, t.a[i], V)
    [] t.t = "or" -> \E i \in DOMAIN t.a : Holds(st, t.a[i], V)
    [] t.t = "xor" -> Cardinality({i \in DOMAIN t.a : Holds(st, t.a[i], V)}) % 2 = 1
    [] t.t = "iff" -> \A i, j \in DOMAIN t.a : Holds(st, t.a[i], V) = Holds(st, t.a[j], V)
    [] t.t = "implies" -> Holds(st, t.a[1], V) => Holds(st, t.a[2], V)
    [] t.t = "ite" -> IF Holds(st, t.a[1], V) THEN Holds(st, t.a[2], V) ELSE Holds(st, t.a[3], V)
\* ---- variables ---------------------------------------------------------------
RECURSIVE TermKeys(_)
TermKeys(t) == IF t.f = 0 THEN {<<"u", t.u>>} ELSE {<<"f", t.f>>} \cup UNION {TermKeys(t.a[i]) : i \in DOMAIN t.a}
PKeys(p) == {<<"x", v>> : v \in PVars(PSumList(p))}
RKeys(st, p) == {<<"x", v>> : v \in PVars(PSumList(p)) \ {st.nv + 1}}
RECURSIVE Keys(_, _)
Keys(st, t) ==
  CASE t.t \in {"true", "false"} -> {}
    [] t.t = "bool" -> {<<"b", t.v>>}
    [] t.t = "con" -> PKeys(t.p)
    [] t.t = "bv" -> {<<"v", i>> : i \in B!Vars(t.x) \cup B!Vars(t.y)}
    [] t.t = "ueq" -> TermKeys(t.x) \cup TermKeys(t.y)
    [] t.t \in {"vc", "va"} -> {<<"x", t.v>>} \cup (IF t.p[1] = "r" THEN RKeys(st, t.p[2]) ELSE {})
    [] OTHER -> UNION {Keys(st, t.a[i]) : i \in DOMAIN t.a}
\* The atoms that are simplified as far as the model allows.
RECURSIVE Plain(_)
Plain(t) == CASE t.t \in {"true", "false"} -> {} [] t.t \in {"bool", "con", "bv"} -> {t} [] t.t \in {"ueq", "vc", "va"} -> {}
              [] OTHER -> UNION {Plain(t.a[i]) : i \in DOMAIN t.a}
\* ---- what a model says -------------------------------------------------------
Has2(M, k) == k \in DOMAIN M
\* Overriding a valuation, entries that depend on others last: x3, x2, x1, then the Booleans.
PolyVal(st, p, V) == Rat(PEval(st.nv, PSumList(p), [i \in 1..st.nv |-> IF IsRat(V.x[i]) THEN V.x[i].a ELSE "0"]))
OverX(st, M, V, i) ==
  IF ~Has2(M, <<"x", i>>) THEN V
  ELSE LET w == M[<<"x", i>>] IN
       IF w[1] = "p" THEN [V EXCEPT !.x[i] = PolyVal(st, w[2], V)]
       ELSE LET l == ValNum(st, w, V) IN IF l = <<>> THEN V ELSE [V EXCEPT !.x[i] = l[1]]
RECURSIVE OverXs(_, _, _, _)
OverXs(st, M, V, i) == IF i = 0 THEN V ELSE OverXs(st, M, OverX(st, M, V, i), i - 1)
OverB(st, M, V, i) == IF ~Has2(M, <<"b", i>>) THEN V
  ELSE LET w == M[<<"b", i>>] IN [V EXCEPT !.b[i] = IF w[1] = "b" THEN w[2] ELSE Holds(st, w[2], V)]
RECURSIVE OverBs(_, _, _, _)
OverBs(st, M, V, i) == IF i = 0 THEN V ELSE OverBs(st, M, OverB(st, M, V, i), i - 1)
Over(st, M, V) ==
  LET V1 == [V EXCEPT !.v = [i \in DOMAIN V.v |-> IF Has2(M, <<"v", i>>) THEN M[<<"v", i>>][3] ELSE V.v[i]],
                      !.u = [i \in DOMAIN V.u |-> IF Has2(M, <<"u", i>>) THEN M[<<"u", i>>][2] ELSE V.u[i]],
                      !.f = [i \in DOMAIN V.f |-> IF Has2(M, <<"f", i>>) THEN M[<<"f", i>>][2] ELSE V.f[i]]]
  IN  OverBs(st, M, OverXs(st, M, V1, st.nv), st.nb)
Vals(st, M) == [i \in DOMAIN st.pts |-> Over(st, M, Point(st.pts[i]))]
\* Variables whose value is determined without any further information.
Deps(st, w) == CASE w[1] = "p" -> PKeys(w[2]) [] w[1] = "r" -> RKeys(st, w[2]) [] OTHER -> {}
RECURSIVE Known(_, _, _)
Known(st, M, k) == Has2(M, k) /\ M[k][1] # "F" /\ (k[1] = "x" => M[k][1] # "b") /\ (\A d \in Deps(st, M[k]) : Known(st, M, d))
                   /\ (M[k][1] = "r" => RootAtV(st.nv, M[k][2], M[k][3], OverXs(st, M, Point(st.pts[1]), st.nv).x) # <<>>)
\* An evaluation yields a truth value exactly if it is determined; otherwise a formula equivalent given the model.
Residual(st, M, t, u) ==
  /\ \A i \in DOMAIN st.pts : LET V == Vals(st, M)[i] IN Holds(st, u, V) = Holds(st, t, V)
  /\ Keys(st, u) \subseteq Keys(st, t) \cup UNION {UNION {Deps(st, M[d]) : d \in {d \in {k} \cup Deps(st, M[k]) : Has2(M, d)}} : k \in {k \in Keys(st, t) : Has2(M, k)}}
  /\ \A a \in Plain(u) : \A k \in Keys(st, a) : Known(st, M, k) => k[1] = "x" /\ M[k][1] \in {"a", "r"}
Complete(st, M, t) == \A k \in Keys(st, t) : Known(st, M, k)
EvOk(st, M, t, r) ==
  /\ Residual(st, M, t, r.tree)
  /\ Complete(st, M, t) => r.tree.t \in {"true", "false"}
  /\ r.sat = (IF r.tree.t = "true" THEN 1 ELSE IF r.tree.t = "false" THEN 0 ELSE 2)
\* A value denotes w under valuation V.
IsNum(st, w, X) == w[1] \in {"q", "a"} /\ Cmp(ValNum(st, w, [x |-> <<>>])[1], X) = 0
PolyOk(st, M, p, w) ==
  LET V == Vals(st, M) IN
  IF w[1] \in {"q", "a"} THEN \A i \in DOMAIN V : ValueOk(st.nv, p, V[i].x, ValNum(st, w, V[i])[1])
  ELSE /\ w[1] = "p" /\ ~\A k \in PKeys(p) : Known(st, M, k)
       /\ \A i \in DOMAIN V : SignOf(st.nv, w[2] \o [j \in DOMAIN p |-> <<p[j][1], QNeg(p[j][2])>>], V[i].x) = 0
       /\ \A v \in PVars(PSumList(w[2])) : Known(st, M, <<"x", v>>) => M[<<"x", v>>][1] \in {"a", "r"}
SameRoot(st, w, e, V) == LET a == RootAtV(st.nv, w[2], w[3], V.x)  b == RootAtV(st.nv, e[2], e[3], V.x) IN Len(a) = Len(b) /\ (a # <<>> => Cmp(a[1], b[1]) = 0)
\* An entry as it was given.
StoredOk(st, w, e) == IF w[1] \in {"q", "a"} /\ e[1] \in {"q", "a"} THEN IsNum(st, w, ValNum(st, e, [x |-> <<>>])[1])
                      ELSE IF w[1] = "p" THEN e[1] = "p" /\ PSumList(w[2]) = PSumList(e[2])
                      ELSE IF w[1] \in {"q", "a"} /\ e[1] = "r" THEN RKeys(st, e[2]) = {} /\ LET l == RootAtV(st.nv, e[2], e[3], Point(st.pts[1]).x) IN l # <<>> /\ IsNum(st, w, l[1])
                      ELSE IF w[1] = "r" THEN e[1] = "r" /\ \A i \in DOMAIN st.pts : SameRoot(st, w, e, Point(st.pts[i]))
                      ELSE IF w[1] = "F" THEN e[1] = "F" /\ \A i \in DOMAIN st.pts : Holds(st, w[2], Point(st.pts[i])) = Holds(st, e[2], Point(st.pts[i]))
                      ELSE IF w[1] = "f" THEN e[1] = "f" /\ {w[2][i] : i \in DOMAIN w[2]} = {e[2][i] : i \in DOMAIN e[2]} /\ Len(w[2]) = Len(e[2])
                      ELSE w = e
\* The value of an entry, as far as it is determined.
EntryOk(st, M, k, w) ==
  LET e == M[k]  V == Vals(st, M) IN
  CASE e[1] = "p" -> PolyOk(st, M, e[2], w)
    [] e[1] = "r" -> IF \A d \in Deps(st, e) : Known(st, M, d)
                     THEN LET l == RootAtV(st.nv, e[2], e[3], V[1].x) IN IF l = <<>> THEN w = <<"b", FALSE>> ELSE IsNum(st, w, l[1])
                     ELSE IF w[1] # "r" THEN \A i \in DOMAIN V : LET l == RootAtV(st.nv, e[2], e[3], V[i].x) IN IF l = <<>> THEN w = <<"b", FALSE>> ELSE IsNum(st, w, l[1])
                     ELSE \A i \in DOMAIN V : SameRoot(st, w, e, V[i])
    [] e[1] = "F" -> IF w[1] = "b" THEN \A i \in DOMAIN V : Holds(st, e[2], V[i]) = w[2] ELSE w[1] = "F" /\ Residual(st, M, e[2], w[2]) /\ ~Complete(st, M, e[2])
    [] e[1] \in {"q", "a"} -> IsNum(st, w, ValNum(st, e, V[1])[1])
    [] OTHER -> StoredOk(st, w, e)
DumpOk(st, M, d) == /\ {d[i][1] : i \in DOMAIN d} = DOMAIN M /\ Len(d) = Cardinality(DOMAIN M)
                    /\ \A i \in DOMAIN d : StoredOk(st, d[i][2], M[d[i][1]])
KeySet(l) == {l[i] : i \in DOMAIN l}
\* ---- operations ----------------------------------------------------------------
Throws(st, e) == FALSE
Scaled(w, c) == IF w[1] = "p" THEN <<"p", [j \in DOMAIN w[2] |-> <<w[2][j][1], QMul(c, w[2][j][2])>>]>> ELSE w
Shifted(st, w, c) == IF w[1] = "p" THEN <<"p", Append(w[2], <<MOne(st.nv), c>>)>> ELSE w
Pre(st, e) ==
  CASE e.op \in {"evald", "scale", "shift", "repr"} -> Has2(st.m[e.m], e.k) /\ (e.op = "evald" \/ st.m[e.m][e.k][1] \in {"p", "r", "F"})
    [] e.op = "update" -> e.dis => DOMAIN st.m[e.m] \cap DOMAIN st.m[e.n] = {}
    [] e.op = "evt" -> \A i \in B!Vars(e.t) : Has2(st.m[e.m], <<"v", i>>)
    [] e.op = "evu" -> \A k \in TermKeys(e.t) : Has2(st.m[e.m], k)
    [] e.op = "extend" -> Has2(st.m[e.m], e.k) /\ LET t == st.m[e.m][e.k][2] IN \A i \in DOMAIN t : t[i][1] = e.a => t[i][2] = e.v
    [] OTHER -> TRUE
ReprOk(st, e) ==
  LET w == st.m[e.m][e.k] IN
  /\ \A i \in DOMAIN st.pts : LET V == Point(st.pts[i]) IN
       Holds(st, e.r.tree, V) = (CASE w[1] = "p" -> Cmp(V.x[e.k[2]], PolyVal(st, w[2], V)) = 0
                                   [] w[1] = "r" -> LET l == ValNum(st, w, V) IN l # <<>> /\ Cmp(V.x[e.k[2]], l[1]) = 0
                                   [] w[1] = "F" -> V.b[e.k[2]] = Holds(st, w[2], V))
  \* A formula may have been simplified.
  /\ IF w[1] = "F" THEN LET xb(s) == {k \in s : k[1] \in {"x", "b"}} IN
          xb(Keys(st, e.r.tree)) \ {e.k} \subseteq KeySet(e.r.deps) /\ KeySet(e.r.deps) \subseteq xb(Keys(st, w[2]))
     ELSE KeySet(e.r.deps) = Deps(st, w)
Ok(st, e) ==
  LET M == st.m[e.m]  r == e.r IN
  CASE e.op = "set" -> r = (e.way \in {"assign", "from"} \/ ~Has2(M, e.k))
    [] e.op \in {"erase", "update", "clear", "copy", "scale", "shift", "extend"} -> r = "done"
    [] e.op = "clean" -> /\ {r[i][1] : i \in DOMAIN r} = DOMAIN M /\ Len(r) = Cardinality(DOMAIN M)
                         /\ \A i \in DOMAIN r : EntryOk(st, M, r[i][1], r[i][2])
    [] e.op = "look" -> /\ DumpOk(st, M, r.dump) /\ r.size = Cardinality(DOMAIN M) /\ r.empty = (DOMAIN M = {})
                        /\ KeySet(r.found) = DOMAIN M /\ r.all = (\A i \in DOMAIN e.ks : e.ks[i] \in DOMAIN M)
    [] e.op = "evald" -> EntryOk(st, M, e.k, r)
    [] e.op = "ev" -> EvOk(st, M, e.t, r)
    [] e.op = "sub" -> Residual(st, M, e.t, r) /\ (Complete(st, M, e.t) => r.t \in {"true", "false"})
    [] e.op = "evp" -> PolyOk(st, M, e.p, r)
    [] e.op = "subp" -> /\ \A i \in DOMAIN st.pts : SignOf(st.nv, r \o [j \in DOMAIN e.p |-> <<e.p[j][1], QNeg(e.p[j][2])>>], Vals(st, M)[i].x) = 0
                        /\ \A v \in PVars(PSumList(r)) : Known(st, M, <<"x", v>>) => M[<<"x", v>>][1] \in {"a", "r"}
    [] e.op = "evt" -> r = <<"v", e.t.w, B!Eval(e.t, Vals(st, M)[1].v).n>>
    [] e.op = "subt" -> B!SameMeaning([asg |-> [i \in DOMAIN st.pts |-> Vals(st, M)[i].v]], r, e.t) /\ \A i \in B!Vars(r) : ~Has2(M, <<"v", i>>)
    [] e.op = "evu" -> r = <<"s", Term(e.t, Vals(st, M)[1])>>
    [] e.op = "evr" -> EntryOk(st, [k \in DOMAIN M \cup {<<"t", 0>>} |-> IF k = <<"t", 0>> THEN <<"r", e.p, e.n>> ELSE M[k]], <<"t", 0>>, r)
    [] e.op = "repr" -> ReprOk(st, e)
    [] e.op = "meta" -> LET cs == r.con IN
         /\ \A i \in DOMAIN st.pts : LET V == Point(st.pts[i])  h == Holds(st, e.t, V) IN
              /\ cs.t # "none" => Holds(st, cs, V) = h
              /\ Holds(st, r.neg, V) = ~h
              /\ (e.t.p[1] # "r" \/ ValNum(st, e.t.p, V) # <<>>) => Holds(st, r.inv, V) = ~h
              /\ LET l == ValNum(st, e.t.p, V) IN l # <<>> /\ Cmp(V.x[e.t.v], l[1]) = 0 => SignOf(st.nv, r.def, V.x) = 0
         /\ KeySet(r.vars) = Keys(st, e.t) /\ r.eq = (IF e.t.neg THEN e.t.r = "!=" ELSE e.t.r = "=")
Put(M, k, v) == [x \in DOMAIN M \cup {k} |-> IF x = k THEN v ELSE M[x]]
Next1(st, e) ==
  LET M == st.m[e.m] IN
  CASE e.op = "set" -> IF e.way = "from" THEN [k \in {e.k} |-> e.v] ELSE IF e.way = "assign" \/ ~Has2(M, e.k) THEN Put(M, e.k, e.v) ELSE M
    [] e.op = "erase" -> [x \in DOMAIN M \ {e.k} |-> M[x]]
    [] e.op = "clear" -> [x \in {} |-> 0]
    [] e.op = "copy" -> st.m[e.n]
    [] e.op = "update" -> [x \in DOMAIN M \cup DOMAIN st.m[e.n] |-> IF x \in DOMAIN st.m[e.n] THEN st.m[e.n][x] ELSE M[x]]
    [] e.op = "clean" -> [x \in DOMAIN M |-> e.r[CHOOSE i \in DOMAIN e.r : e.r[i][1] = x][2]]
    [] e.op = "scale" -> [M EXCEPT ![e.k] = Scaled(M[e.k], e.c)]
    [] e.op = "shift" -> [M EXCEPT ![e.k] = Shifted(st, M[e.k], e.c)]
    [] e.op = "extend" -> [M EXCEPT ![e.k] = <<"f", IF \E i \in DOMAIN M[e.k][2] : M[e.k][2][i][1] = e.a THEN M[e.k][2] ELSE Append(M[e.k][2], <<e.a, e.v>>)>>]
    [] OTHER -> M
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE [st EXCEPT !.m[e.m] = Next1(st, e)]
=============================================================================
