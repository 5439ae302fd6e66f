-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text formats (C33).  What a text means is defined here, on its tokens:  *)
(*  - SMT-LIB: an S-expression has a sort and, at a valuation, a value;    *)
(*    a script declares what it uses before it uses it; a model defines    *)
(*    values.                                                              *)
(*  - infix polynomials and formulas: a recursive descent over tokens.     *)
(*  - DIMACS and OPB: clauses and linear constraints.  The names of their  *)
(*    variables are not kept, so the meaning is up to a renaming.          *)
(* What an object means is defined in Mod.                                 *)
(* Nodes of S-expressions: [k, s, i, w, a] with kind l (list), x b v u f   *)
(* (symbol of that kind, number i), n (numeral), bits, e (element of a     *)
(* sort), p (parameter), sym, bad.                                         *)
(***************************************************************************)
EXTENDS Mod
TBegin(e) == [nv |-> e.nv, nb |-> e.nb, vw |-> e.vw, nu |-> e.nu, pts |-> e.pts, ints |-> e.ints]
Drop(s, k) == SubSeq(s, k + 1, Len(s))
\* ---- sorts -------------------------------------------------------------------
BoolS == <<"Bool", 0>>
NumS == <<"Num", 0>>
USort == <<"U", 0>>
Bad == <<"bad", 0>>
BVS(w) == <<"BV", w>>
BinName == [bvand |-> "and", bvor |-> "or", bvxor |-> "xor", bvnand |-> "nand", bvnor |-> "nor", bvxnor |-> "xnor", bvadd |-> "add", bvsub |-> "sub",
            bvmul |-> "mul", bvudiv |-> "udiv", bvsdiv |-> "sdiv", bvurem |-> "urem", bvsrem |-> "srem", bvsmod |-> "smod", bvcomp |-> "eq", bvshl |-> "shl",
            bvlshr |-> "lshr", bvashr |-> "ashr", concat |-> "concat"]
UnName == [bvnot |-> "not", bvneg |-> "neg"]
IdxName == [rotate_left |-> "lrot", rotate_right |-> "rrot", repeat |-> "rep", zero_extend |-> "extu", sign_extend |-> "exts"]
RelName == [bvult |-> "ult", bvule |-> "ule", bvugt |-> "ugt", bvuge |-> "uge", bvslt |-> "slt", bvsle |-> "sle", bvsgt |-> "sgt", bvsge |-> "sge"]
IsSym(n, s) == n.k = "sym" /\ n.s = s
IsList(n) == n.k = "l"
\* (_ name i ...) with indices all numerals
Indexed(h) == IsList(h) /\ Len(h.a) >= 3 /\ IsSym(h.a[1], "_") /\ h.a[2].k = "sym" /\ \A i \in 3..Len(h.a) : h.a[i].k = "n"
Constant(n) == IsList(n) /\ Len(n.a) \in {2, 3} /\ LET o == n.a[1] IN
               (IsSym(o, "-") /\ Len(n.a) = 2 /\ n.a[2].k = "n") \/ (IsSym(o, "/") /\ Len(n.a) = 3)
RECURSIVE SortOf(_, _)
SortOf(st, n) ==
  CASE n.k = "x" -> NumS [] n.k = "b" -> BoolS [] n.k = "v" -> BVS(st.vw[n.i]) [] n.k \in {"u", "e", "p"} -> USort [] n.k = "n" -> NumS
    [] n.k = "bits" -> BVS(n.w)
    [] n.k = "sym" -> IF n.s \in {"true", "false"} THEN BoolS ELSE Bad
    [] IsList(n) /\ n.a # <<>> ->
       (LET h == n.a[1]
            m == Len(n.a) - 1
            s == [i \in 1..m |-> SortOf(st, n.a[i + 1])]
            all(t) == m > 0 /\ \A i \in 1..m : s[i] = t
            bv == m > 0 /\ \A i \in 1..m : s[i][1] = "BV"
        IN  IF h.k = "f" THEN (IF m = h.i /\ all(USort) THEN USort ELSE Bad)
            ELSE IF Indexed(h)
              THEN (IF m # 1 \/ ~bv THEN Bad
                    ELSE IF h.a[2].s = "extract" THEN (IF Len(h.a) = 4 /\ h.a[4].i <= h.a[3].i /\ h.a[3].i < s[1][2] THEN BVS(h.a[3].i - h.a[4].i + 1) ELSE Bad)
                    ELSE IF h.a[2].s \in DOMAIN IdxName /\ Len(h.a) = 3 THEN BVS(B!UnW(IdxName[h.a[2].s], s[1][2], h.a[3].i)) ELSE Bad)
            ELSE IF h.k # "sym" THEN Bad
            ELSE IF h.s \in {"and", "or", "xor"} THEN (IF all(BoolS) THEN BoolS ELSE Bad)
            ELSE IF h.s = "=>" THEN (IF all(BoolS) /\ m >= 2 THEN BoolS ELSE Bad)
            ELSE IF h.s = "not" THEN (IF all(BoolS) /\ m = 1 THEN BoolS ELSE Bad)
            ELSE IF h.s \in {"=", "distinct"} THEN (IF m >= 2 /\ s[1] # Bad /\ all(s[1]) THEN BoolS ELSE Bad)
            ELSE IF h.s = "ite" THEN (IF m = 3 /\ s[1] = BoolS /\ s[2] = s[3] THEN s[2] ELSE Bad)
            ELSE IF h.s \in {"<", "<=", ">", ">="} THEN (IF all(NumS) /\ m >= 2 THEN BoolS ELSE Bad)
            ELSE IF h.s \in {"+", "*", "-"} THEN (IF all(NumS) THEN NumS ELSE Bad)
            ELSE IF h.s = "/" THEN (IF all(NumS) /\ m = 2 /\ n.a[3].k = "n" /\ n.a[3].s # "0" THEN NumS ELSE Bad)
            ELSE IF h.s \in DOMAIN BinName THEN (IF bv /\ m = 2 /\ (h.s = "concat" \/ s[1] = s[2]) THEN BVS(B!BinW(BinName[h.s], s[1][2], s[2][2])) ELSE Bad)
            ELSE IF h.s \in DOMAIN UnName THEN (IF bv /\ m = 1 THEN s[1] ELSE Bad)
            ELSE IF h.s \in DOMAIN RelName THEN (IF bv /\ m = 2 /\ s[1] = s[2] THEN BoolS ELSE Bad)
            ELSE Bad)
    [] OTHER -> Bad
\* ---- values at a point W (of well-sorted expressions) --------------------------
\* Numbers: polynomials, so that equality does not depend on the points.
RECURSIVE SPoly(_, _)
SPoly(st, n) ==
  CASE n.k = "n" -> PConst(st.nv, n.s)
    [] n.k = "x" -> PVar(st.nv, n.i)
    [] OTHER -> LET h == n.a[1].s  m == Len(n.a) - 1
                    RECURSIVE Fold(_, _)
                    Fold(acc, i) == IF i > m + 1 THEN acc
                                    ELSE Fold((LET y == SPoly(st, n.a[i]) IN CASE h = "+" -> PAdd(acc, y) [] h = "*" -> PMul(acc, y) [] h = "-" -> PSub(acc, y) [] h = "/" -> PScale(QDiv("1", PConstVal(y)), acc)), i + 1)
                IN  IF h = "-" /\ m = 1 THEN PNeg(SPoly(st, n.a[2])) ELSE Fold(SPoly(st, n.a[2]), 3)
SNum(st, n, W) == PEval(st.nv, SPoly(st, n), W.x)
RECURSIVE SBV(_, _, _)
SBV(st, n, W) ==
  CASE n.k = "bits" -> B!V(n.w, n.s)
    [] n.k = "v" -> B!V(st.vw[n.i], W.v[n.i])
    [] OTHER -> LET h == n.a[1]  x == SBV(st, n.a[2], W) IN
                IF IsList(h) THEN (IF h.a[2].s = "extract" THEN B!Extract(x, h.a[3].i, h.a[4].i) ELSE B!Un(IdxName[h.a[2].s], x, h.a[3].i))
                ELSE IF h.s \in DOMAIN UnName THEN B!Un(UnName[h.s], x, 0)
                ELSE B!Bin(BinName[h.s], x, SBV(st, n.a[3], W))
RECURSIVE SU(_, _, _)
RECURSIVE SBool(_, _, _)
SU(st, n, W) ==
  CASE n.k = "u" -> W.u[n.i] [] n.k = "e" -> n.i [] n.k = "p" -> W.p[n.i]
    [] n.a[1].k = "f" -> Lookup(W.f[n.a[1].i], [i \in 1..(Len(n.a) - 1) |-> SU(st, n.a[i + 1], W)])
    [] OTHER -> IF SBool(st, n.a[2], W) THEN SU(st, n.a[3], W) ELSE SU(st, n.a[4], W)
SEq(st, x, y, W) == LET s == SortOf(st, x)[1] IN
  CASE s = "Bool" -> SBool(st, x, W) = SBool(st, y, W) [] s = "Num" -> SNum(st, x, W) = SNum(st, y, W)
    [] s = "BV" -> SBV(st, x, W) = SBV(st, y, W) [] s = "U" -> SU(st, x, W) = SU(st, y, W)
SBool(st, n, W) ==
  CASE n.k = "b" -> W.b[n.i] [] n.k = "sym" -> n.s = "true"
    [] OTHER ->
       LET h == n.a[1].s  m == Len(n.a) - 1  a == Drop(n.a, 1)
           t(i) == SBool(st, a[i], W)
           RECURSIVE Imp(_)
           Imp(i) == IF i = m THEN t(m) ELSE (t(i) => Imp(i + 1))
           chain(r) == \A i \in 1..(m - 1) : RelH(r, QCmp(SNum(st, a[i], W), SNum(st, a[i + 1], W)))
       IN  CASE h = "and" -> \A i \in 1..m : t(i) [] h = "or" -> \E i \in 1..m : t(i) [] h = "not" -> ~t(1)
             [] h = "xor" -> Cardinality({i \in 1..m : t(i)}) % 2 = 1 [] h = "=>" -> Imp(1)
             [] h = "ite" -> (IF t(1) THEN t(2) ELSE t(3))
             [] h = "=" -> \A i \in 1..(m - 1) : SEq(st, a[i], a[i + 1], W)
             [] h = "distinct" -> \A i, j \in 1..m : i # j => ~SEq(st, a[i], a[j], W)
             [] h \in {"<", "<=", ">", ">="} -> chain(h)
             [] OTHER -> B!Cmp(RelName[h], SBV(st, a[1], W), SBV(st, a[2], W))
\* The symbols of an expression.
RECURSIVE Syms(_)
Syms(n) == CASE n.k \in {"x", "b", "v", "u", "f"} -> {<<n.k, n.i>>} [] IsList(n) -> UNION {Syms(n.a[i]) : i \in DOMAIN n.a} [] OTHER -> {}
FormOk(st, n, t) == SortOf(st, n) = BoolS /\ \A i \in DOMAIN st.pts : SBool(st, n, st.pts[i]) = Holds(st, t, Point(st.pts[i]))
PolyIs(st, n, p) == SortOf(st, n) = NumS /\ SPoly(st, n) = p
\* ---- scripts -------------------------------------------------------------------
Head1(n) == IF IsList(n) /\ n.a # <<>> /\ n.a[1].k = "sym" THEN n.a[1].s ELSE "?"
SortIs(st, n, k) ==   \* the sort of a variable of kind k
  CASE k[1] = "x" -> IsSym(n, IF st.ints[k[2]] THEN "Int" ELSE "Real")
    [] k[1] = "b" -> IsSym(n, "Bool")
    [] k[1] = "v" -> Indexed(n) /\ n.a[2].s = "BitVec" /\ Len(n.a) = 3 /\ n.a[3].i = st.vw[k[2]]
    [] OTHER -> IsSym(n, "S")
DeclOk(st, n) == /\ Len(n.a) = 4 /\ n.a[2].k \in {"x", "b", "v", "u", "f"} /\ IsList(n.a[3])
                 /\ SortIs(st, n.a[4], <<n.a[2].k, n.a[2].i>>)
                 /\ Len(n.a[3].a) = IF n.a[2].k = "f" THEN n.a[2].i ELSE 0
                 /\ \A i \in DOMAIN n.a[3].a : IsSym(n.a[3].a[i], "S")
ScriptOk(st, e) ==
  LET r == e.r  n == Len(r)
      at(h) == {i \in 1..n : Head1(r[i]) = h}
      nf == Len(e.fs)  obj == PSumList(e.obj)  hasobj == ~PIsZero(obj)
      tail == nf + (IF hasobj THEN 1 ELSE 0) + 1 + (IF e.getmodel THEN 1 ELSE 0)
      d == n - tail                \* 1: set-logic, 2..d: declarations
      decl == [i \in at("declare-fun") |-> <<r[i].a[2].k, r[i].a[2].i>>]
      used == UNION {Syms(r[i]) : i \in (d + 1)..n}
      mentioned == UNION {Keys(st, e.fs[i]) : i \in DOMAIN e.fs} \cup {<<"x", v>> : v \in PVars(obj)}
  IN  /\ d >= 1 /\ Head1(r[1]) = "set-logic" /\ Len(r[1].a) = 2 /\ IsSym(r[1].a[2], e.logic)
      /\ \A i \in 2..d : Head1(r[i]) \in {"declare-sort", "declare-fun"}
      /\ \A i \in at("declare-fun") : i <= d /\ DeclOk(st, r[i])
      /\ \A i, j \in at("declare-fun") : i # j => decl[i] # decl[j]
      /\ used \subseteq {decl[i] : i \in at("declare-fun")} /\ {decl[i] : i \in at("declare-fun")} \subseteq mentioned
      /\ \A i \in at("declare-sort") : i <= d /\ Len(r[i].a) = 3 /\ IsSym(r[i].a[2], "S") /\ r[i].a[3].k = "n" /\ r[i].a[3].s = "0"
      /\ Cardinality(at("declare-sort")) <= 1
      /\ \A i \in at("declare-fun") : decl[i][1] \in {"u", "f"} => \E j \in at("declare-sort") : j < i
      /\ \A i \in 1..nf : Head1(r[d + i]) = "assert" /\ Len(r[d + i].a) = 2 /\ FormOk(st, r[d + i].a[2], e.fs[i])
      /\ hasobj => Head1(r[d + nf + 1]) = "minimize" /\ Len(r[d + nf + 1].a) = 2 /\ PolyIs(st, r[d + nf + 1].a[2], obj)
      /\ Head1(r[n - (IF e.getmodel THEN 1 ELSE 0)]) = "check-sat"
      /\ e.getmodel => Head1(r[n]) = "get-model"
\* ---- models --------------------------------------------------------------------
ArgTuples(k) == [1..k -> 0..3]
ParamsOk(n, k) == /\ IsList(n) /\ Len(n.a) = k
                  /\ \A i \in 1..k : IsList(n.a[i]) /\ Len(n.a[i].a) = 2 /\ n.a[i].a[1].k = "p" /\ IsSym(n.a[i].a[2], "S")
                  /\ \A i, j \in 1..k : i # j => n.a[i].a[1].i # n.a[j].a[1].i
DefOk(st, n, en) ==   \* the entry <<key, value>>
  LET k == en[1]  v == en[2]  ar == IF k[1] = "f" THEN k[2] ELSE 0  body == n.a[5] IN
  /\ Head1(n) = "define-fun" /\ Len(n.a) = 5 /\ n.a[2].k = k[1] /\ n.a[2].i = k[2]
  /\ ParamsOk(n.a[3], ar) /\ SortIs(st, n.a[4], k)
  /\ CASE k[1] = "x" -> PolyIs(st, body, PConst(st.nv, v[2]))
       [] k[1] = "b" -> IsSym(body, IF v[2] THEN "true" ELSE "false")
       [] k[1] = "v" -> body.k = "bits" /\ body.w = st.vw[k[2]] /\ body.s = v[3]
       [] k[1] = "u" -> body.k = "e" /\ body.i = v[2]
       [] k[1] = "f" -> LET P == {n.a[3].a[i].a[1].i : i \in 1..ar}
                            pos(x) == CHOOSE i \in 1..ar : n.a[3].a[i].a[1].i = x
                            RECURSIVE Params(_)
                            Params(b) == CASE b.k = "p" -> {b.i} [] IsList(b) -> UNION {Params(b.a[i]) : i \in DOMAIN b.a} [] OTHER -> {}
                        IN  /\ SortOf(st, body) = USort /\ Params(body) \subseteq P /\ Syms(body) = {}
                            /\ \A t \in ArgTuples(ar) : SU(st, body, [p |-> [x \in P |-> t[pos(x)]]]) = Lookup(v[2], t)
ModelTextOk(st, e) ==
  /\ Len(e.r) = 1 /\ Head1(e.r[1]) = "model" /\ Len(e.r[1].a) = Len(e.es) + 1
  /\ \A i \in DOMAIN e.es : \E j \in 2..Len(e.r[1].a) : DefOk(st, e.r[1].a[j], e.es[i])
\* ---- infix ----------------------------------------------------------------------
\* Tokens <<kind, text, value>>; results [ok, p, i]: the polynomial and the next position.
IsOp(t, i, s) == i <= Len(t) /\ t[i][1] = "o" /\ t[i][2] = s
Kind(t, i) == IF i <= Len(t) THEN t[i][1] ELSE "end"
Fail == [ok |-> FALSE, p |-> <<>>, i |-> 0]
Done(p, i) == [ok |-> TRUE, p |-> p, i |-> i]
RECURSIVE StrToNat(_, _)
StrToNat(s, k) == IF k > 40 THEN 0 ELSE IF ToString(k) = s THEN k ELSE StrToNat(s, k + 1)
VarNo(t, i) == StrToNat(t[i][3], 1)
ParsePow(nv, t, i) ==    \* at a variable
  IF IsOp(t, i + 1, "^") THEN (IF Kind(t, i + 2) = "n" THEN Done(PMono([MOne(nv) EXCEPT ![VarNo(t, i)] = StrToNat(t[i + 2][3], 0)], "1"), i + 3) ELSE Fail)
  ELSE Done(PVar(nv, VarNo(t, i)), i + 1)
ParseTerm(nv, t, i) ==
  IF Kind(t, i) = "v" THEN ParsePow(nv, t, i)
  ELSE IF Kind(t, i) # "n" THEN Fail
  ELSE LET frac == IsOp(t, i + 1, "/") /\ Kind(t, i + 2) = "n"
           c == IF frac THEN (IF t[i + 2][3] = "0" THEN "bad" ELSE QDiv(t[i][3], t[i + 2][3])) ELSE t[i][3]
           j == IF frac THEN i + 3 ELSE i + 1
       IN  IF c = "bad" THEN Fail
           ELSE IF Kind(t, j) = "v" THEN LET m == ParsePow(nv, t, j) IN IF m.ok THEN Done(PScale(c, m.p), m.i) ELSE Fail
           ELSE Done(PConst(nv, c), j)
RECURSIVE ParseSum(_, _, _)
RECURSIVE ParseExpr(_, _, _)
ParseExpr(nv, t, i) ==
  IF IsOp(t, i, "(") THEN LET s == ParseSum(nv, t, i + 1) IN IF s.ok /\ IsOp(t, s.i, ")") THEN Done(s.p, s.i + 1) ELSE Fail
  ELSE IF IsOp(t, i, "+") \/ IsOp(t, i, "-") THEN LET s == ParseExpr(nv, t, i + 1) IN IF s.ok THEN Done(IF IsOp(t, i, "-") THEN PNeg(s.p) ELSE s.p, s.i) ELSE Fail
  ELSE ParseTerm(nv, t, i)
RECURSIVE ParseProdRest(_, _, _)
ParseProdRest(nv, t, acc) ==
  IF ~acc.ok \/ ~IsOp(t, acc.i, "*") THEN acc
  ELSE LET y == ParseExpr(nv, t, acc.i + 1) IN IF y.ok THEN ParseProdRest(nv, t, Done(PMul(acc.p, y.p), y.i)) ELSE Fail
ParseProd(nv, t, i) == ParseProdRest(nv, t, ParseExpr(nv, t, i))
RECURSIVE ParseSumRest(_, _, _)
ParseSumRest(nv, t, acc) ==
  IF ~acc.ok \/ ~(IsOp(t, acc.i, "+") \/ IsOp(t, acc.i, "-")) THEN acc
  ELSE LET y == ParseProd(nv, t, acc.i + 1) IN IF y.ok THEN ParseSumRest(nv, t, Done(IF IsOp(t, acc.i, "+") THEN PAdd(acc.p, y.p) ELSE PSub(acc.p, y.p), y.i)) ELSE Fail
ParseSum(nv, t, i) == ParseSumRest(nv, t, ParseProd(nv, t, i))
ParseAll(nv, t) == LET r == ParseSum(nv, t, 1) IN IF r.ok /\ r.i = Len(t) + 1 THEN r ELSE Fail
Spells(nv, t, p) == LET r == ParseAll(nv, t) IN r.ok /\ r.p = p
NamesIn(t) == {t[i][2] : i \in {i \in DOMAIN t : t[i][1] = "v"}}
Twice(t) == \E i, j \in DOMAIN t : i < j /\ t[i][1] = "v" /\ t[j] = t[i] /\ \A k \in i..j : ~IsOp(t, k, "+") /\ ~IsOp(t, k, "/")
\* Rational functions: a product, or two of them with a slash in between.
SlashAt(t) == {i \in 2..(Len(t) - 1) : IsOp(t, i, "/") /\ Kind(t, i + 1) # "n"}
RatOf(nv, t) == IF SlashAt(t) = {} THEN <<ParseAll(nv, t), Done(PConst(nv, "1"), 0)>>
                ELSE LET i == CHOOSE i \in SlashAt(t) : TRUE IN <<ParseAll(nv, SubSeq(t, 1, i - 1)), ParseAll(nv, Drop(t, i))>>
\* Formulas: results [ok, f, i].
FDone(f, i) == [ok |-> TRUE, f |-> f, i |-> i]
FFail == [ok |-> FALSE, f |-> [t |-> "false"], i |-> 0]
Node(t, a) == [t |-> t, a |-> a]
RECURSIVE ParseF(_, _)
RECURSIVE ParseNary(_, _, _)
ParseNary(t, o, acc) ==      \* acc: [ok, fs, i]
  IF ~acc.ok \/ ~IsOp(t, acc.i, o) THEN acc
  ELSE LET y == ParseF(t, acc.i + 1) IN IF y.ok THEN ParseNary(t, o, [ok |-> TRUE, fs |-> Append(acc.fs, y.f), i |-> y.i]) ELSE [ok |-> FALSE, fs |-> <<>>, i |-> 0]
Closing(t, f, i) == IF IsOp(t, i, ")") THEN FDone(f, i + 1) ELSE FFail
BinKey == [IMPLIES |-> "implies", iff |-> "iff", xor |-> "xor"]
ParseF(t, i) ==
  IF Kind(t, i) = "v" THEN FDone([t |-> "bool", v |-> VarNo(t, i)], i + 1)
  ELSE IF ~IsOp(t, i, "(") THEN FFail
  ELSE IF IsOp(t, i + 1, "not") \/ IsOp(t, i + 1, "NOT") THEN LET x == ParseF(t, i + 2) IN IF x.ok THEN Closing(t, Node("not", <<x.f>>), x.i) ELSE FFail
  ELSE LET x == ParseF(t, i + 1) IN
       IF ~x.ok THEN FFail
       ELSE IF Kind(t, x.i) = "o" /\ t[x.i][2] \in DOMAIN BinKey THEN LET y == ParseF(t, x.i + 1) IN IF y.ok THEN Closing(t, Node(BinKey[t[x.i][2]], <<x.f, y.f>>), y.i) ELSE FFail
       ELSE IF IsOp(t, x.i, "AND") \/ IsOp(t, x.i, "OR")
         THEN LET o == t[x.i][2]  y == ParseNary(t, o, [ok |-> TRUE, fs |-> <<x.f>>, i |-> x.i]) IN
              IF y.ok THEN Closing(t, Node(IF o = "AND" THEN "and" ELSE "or", y.fs), y.i) ELSE FFail
       ELSE Closing(t, x.f, x.i)
ParseFAll(t) == LET r == ParseF(t, 1) IN IF r.ok /\ r.i = Len(t) + 1 THEN r ELSE FFail
RECURSIVE BoolsIn(_)
BoolsIn(t) == CASE t.t = "bool" -> {t.v} [] t.t \in {"true", "false"} -> {} [] OTHER -> UNION {BoolsIn(t.a[i]) : i \in DOMAIN t.a}
SameBool(st, f, g) == \A b \in [1..st.nb -> BOOLEAN] : Holds(st, f, [b |-> b]) = Holds(st, g, [b |-> b])
\* ---- Maple and QEPCAD -----------------------------------------------------------
\* Tokens as above, Boolean variables of kind b.  Subformulas are in brackets, a chain uses one connective, so no precedence is assumed.
Cas == [maple |-> [o |-> "(", c |-> ")", neg |-> "not", op |-> [and |-> "and", or |-> "or", iff |-> "iff", xor |-> "xor", implies |-> "=>"], ne |-> "<>"],
        qepcad |-> [o |-> "[", c |-> "]", neg |-> "~", op |-> [and |-> "/\\", or |-> "\\/", iff |-> "<==>", implies |-> "==>"], ne |-> "/="]]
\* Maple writes products with *, QEPCAD with white space.
RECURSIVE Stars(_, _)
Stars(t, i) == IF i > Len(t) THEN <<>>
               ELSE (IF i > 1 /\ Kind(t, i) = "v" /\ (Kind(t, i - 1) = "v" \/ IsOp(t, i - 1, ")")) THEN <<<<"o", "*", "">>>> ELSE <<>>) \o <<t[i]>> \o Stars(t, i + 1)
CasToks(lang, t) == IF lang = "qepcad" THEN Stars(t, 1) ELSE t
CasLexOk(lang, t) == \A i \in DOMAIN t : ~(lang = "qepcad" /\ IsOp(t, i, "*")) /\ ~(Kind(t, i) = "n" /\ Kind(t, i + 1) = "v")
RelOf(L, t, i) == IF Kind(t, i) # "o" THEN "" ELSE IF t[i][2] = L.ne THEN "!=" ELSE IF t[i][2] \in {"=", "<", "<=", ">", ">="} THEN t[i][2] ELSE ""
OpOf(L, t, i) == IF Kind(t, i) # "o" THEN "" ELSE LET k == {k \in DOMAIN L.op : L.op[k] = t[i][2]} IN IF k = {} THEN "" ELSE CHOOSE x \in k : TRUE
CasAtom(nv, L, t, i) == LET s == ParseSum(nv, t, i) IN
  IF s.ok /\ RelOf(L, t, s.i) # "" /\ Kind(t, s.i + 1) = "n" /\ t[s.i + 1][3] = "0" THEN FDone([t |-> "con", p |-> s.p, r |-> RelOf(L, t, s.i)], s.i + 2) ELSE FFail
RECURSIVE CasF(_, _, _, _)
CasUnit(nv, L, t, i) ==
  LET br(j) == LET x == CasF(nv, L, t, j + 1) IN IF IsOp(t, j, L.o) /\ x.ok /\ IsOp(t, x.i, L.c) THEN FDone(x.f, x.i + 1) ELSE FFail IN
  IF IsOp(t, i, L.neg) THEN LET x == br(i + 1) IN IF x.ok THEN FDone(Node("not", <<x.f>>), x.i) ELSE FFail
  ELSE IF Kind(t, i) = "b" THEN FDone([t |-> "bool", v |-> VarNo(t, i)], i + 1)
  ELSE IF Kind(t, i) = "o" /\ t[i][2] \in {"true", "TRUE"} THEN FDone([t |-> "true"], i + 1)
  ELSE IF Kind(t, i) = "o" /\ t[i][2] \in {"false", "FALSE"} THEN FDone([t |-> "false"], i + 1)
  ELSE IF IsOp(t, i, L.o) /\ br(i).ok THEN br(i)
  ELSE CasAtom(nv, L, t, i)
RECURSIVE CasChain(_, _, _, _, _)
CasChain(nv, L, t, k, acc) ==
  IF ~acc.ok \/ OpOf(L, t, acc.i) = "" THEN acc
  ELSE LET y == CasUnit(nv, L, t, acc.i + 1) IN
       IF OpOf(L, t, acc.i) = k /\ y.ok THEN CasChain(nv, L, t, k, [ok |-> TRUE, fs |-> Append(acc.fs, y.f), i |-> y.i]) ELSE [ok |-> FALSE, fs |-> <<>>, i |-> 0]
CasF(nv, L, t, i) ==
  LET x == CasUnit(nv, L, t, i) IN
  IF ~x.ok \/ OpOf(L, t, x.i) = "" THEN x
  ELSE LET k == OpOf(L, t, x.i)  y == CasChain(nv, L, t, k, [ok |-> TRUE, fs |-> <<x.f>>, i |-> x.i]) IN
       IF y.ok /\ (k \in {"iff", "implies"} => Len(y.fs) = 2) THEN FDone(Node(k, y.fs), y.i) ELSE FFail
RECURSIVE CasHolds(_, _, _)
CasHolds(nv, f, W) ==
  CASE f.t = "true" -> TRUE [] f.t = "false" -> FALSE [] f.t = "bool" -> W.b[f.v]
    [] f.t = "con" -> RelH(f.r, QSgn(PEval(nv, f.p, W.x)))
    [] OTHER -> LET h(i) == CasHolds(nv, f.a[i], W)  D == DOMAIN f.a IN
                CASE f.t = "and" -> \A i \in D : h(i) [] f.t = "or" -> \E i \in D : h(i) [] f.t = "not" -> ~h(1)
                  [] f.t = "iff" -> h(1) = h(2) [] f.t = "implies" -> h(1) => h(2) [] f.t = "xor" -> Cardinality({i \in D : h(i)}) % 2 = 1
CasFormOk(st, lang, t, f) ==
  CasLexOk(lang, t) /\ LET u == CasToks(lang, t)  x == CasF(st.nv, Cas[lang], u, 1) IN
    x.ok /\ x.i = Len(u) + 1 /\ \A i \in DOMAIN st.pts : CasHolds(st.nv, x.f, st.pts[i]) = Holds(st, f, Point(st.pts[i]))
CasPolyOk(st, lang, t, p) == CasLexOk(lang, t) /\ Spells(st.nv, CasToks(lang, t), p)
\* ---- DIMACS ----------------------------------------------------------------------
Lit(l, a) == IF l > 0 THEN a[l] ELSE ~a[-l]
CNF(cl, a) == \A i \in DOMAIN cl : \E j \in DOMAIN cl[i] : Lit(cl[i][j], a)
\* A file: lines [k, ls] with k one of c, p, l, reset, blank.  Its formulas: sequences of clauses.
RECURSIVE Read(_, _, _, _, _)
Read(ls, i, cur, cls, out) ==     \* open clause, clauses of the current formula, finished formulas
  LET close == IF cur = <<>> THEN cls ELSE Append(cls, cur) IN
  IF i > Len(ls) THEN Append(out, close)
  ELSE CASE ls[i].k = "reset" -> Read(ls, i + 1, <<>>, <<>>, Append(out, close))
         [] ls[i].k = "l" -> LET RECURSIVE Go(_, _, _)
                                 Go(j, c, k) == IF j > Len(ls[i].ls) THEN <<c, k>> ELSE IF ls[i].ls[j] = 0 THEN Go(j + 1, <<>>, Append(k, c)) ELSE Go(j + 1, Append(c, ls[i].ls[j]), k)
                                 z == Go(1, cur, cls)
                             IN  Read(ls, i + 1, z[1], z[2], out)
         [] OTHER -> Read(ls, i + 1, cur, cls, out)
Inj(n, m) == {f \in [1..n -> 1..m] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RDimacsOk(e) ==
  LET F == Read(e.lines, 1, <<>>, <<>>, <<>>) IN
  /\ Len(e.r.fs) = Len(F) /\ e.r.n <= e.nv
  /\ \E f \in Inj(e.r.n, e.nv) : \A k \in DOMAIN F : \A a \in [1..e.nv -> BOOLEAN] : CNF(F[k], a) = CNF(e.r.fs[k], [i \in 1..e.r.n |-> a[f[i]]])
\* Export: every clause ends with 0; for each valuation of the variables, the formulas hold iff the clauses can be satisfied.
RECURSIVE OnlyBool(_)
OnlyBool(t) == CASE t.t \in {"bool", "true", "false"} -> TRUE [] t.t \in {"con", "bv", "ueq", "vc", "va"} -> FALSE [] OTHER -> \A i \in DOMAIN t.a : OnlyBool(t.a[i])
Ends0(c) == c # <<>> /\ c[Len(c)] = 0 /\ \A i \in 1..(Len(c) - 1) : c[i] # 0
\* Satisfiability of clauses given some values (0 unknown): unit propagation free search, the clause sets are small.
RECURSIVE SatFrom(_, _, _)
SatFrom(cl, i, a) == IF i > Len(a) THEN CNF(cl, a)
                     ELSE SatFrom(cl, i + 1, a) \/ SatFrom(cl, i + 1, [a EXCEPT ![i] = ~a[i]])
DimacsOk(st, e) ==
  LET r == e.r  n == r.nv
      cl == [i \in DOMAIN r.cl |-> SubSeq(r.cl[i], 1, Len(r.cl[i]) - 1)]
      ids == UNION {{IF cl[i][j] > 0 THEN cl[i][j] ELSE -cl[i][j] : j \in DOMAIN cl[i]} : i \in DOMAIN cl}
      models == {a \in [1..n -> BOOLEAN] : CNF(cl, a)}
      want == {b \in [1..st.nb -> BOOLEAN] : \A i \in DOMAIN e.fs : Holds(st, e.fs[i], [b |-> b])}
      maps == {f \in [1..st.nb -> 0..n] : \A i, j \in 1..st.nb : i # j /\ f[i] # 0 => f[i] # f[j]}
      \* what the clauses say about the variables, given where these are
      proj(f) == {b \in [1..st.nb -> BOOLEAN] : \E a \in models : \A i \in 1..st.nb : f[i] # 0 => a[f[i]] = b[i]}
  IN  /\ Len(r.oks) = Len(e.fs) /\ n >= 0
      /\ \A i \in DOMAIN e.fs : OnlyBool(e.fs[i]) => r.oks[i]
      /\ \A i \in DOMAIN r.cl : Ends0(r.cl[i])
      /\ r.nc = Len(r.cl) /\ \A i \in ids : i <= n
      /\ (\A i \in DOMAIN r.oks : r.oks[i]) /\ n <= 9 => \E f \in maps : proj(f) = want
\* ---- OPB ---------------------------------------------------------------------------
RECURSIVE Lin(_, _)
Lin(p, a) == IF p = <<>> THEN "0" ELSE QAdd(IF Head(p)[1] = 0 \/ a[Head(p)[1]] THEN Head(p)[2] ELSE "0", Lin(Tail(p), a))
OpbOk(e) ==
  LET A == [1..e.nv -> BOOLEAN]  r == e.r
      given(a) == \A i \in DOMAIN e.cons : RelH(e.cons[i].rel, QCmp(Lin(e.cons[i].p, a), e.cons[i].c))
      read(b) == \A i \in DOMAIN r.cons : RelH(r.cons[i].r, QSgn(Lin(r.cons[i].p, b)))
  IN  /\ r.ok /\ r.n <= e.nv
      /\ \E f \in Inj(r.n, e.nv) : \A a \in A : LET b == [i \in 1..r.n |-> a[f[i]]] IN Lin(e.obj, a) = Lin(r.obj, b) /\ given(a) = read(b)
\* ---- operations ----------------------------------------------------------------
UniPoly(nv, p) == PSumList([i \in DOMAIN p |-> <<[MOne(nv) EXCEPT ![1] = i - 1], p[i]>>])
TOk(st, e) ==
  LET r == e.r IN
  CASE e.op = "smt" -> Len(r) = 1 /\ FormOk(st, r[1], e.f)
    [] e.op = "smtp" -> Len(r) = 1 /\ PolyIs(st, r[1], PSumList(e.p))
    [] e.op = "smtu" -> Len(r) = 1 /\ PolyIs(st, r[1], UniPoly(st.nv, e.p))
    [] e.op = "smtq" -> Len(r) = 1 /\ PolyIs(st, r[1], PConst(st.nv, e.q))
    [] e.op = "script" -> ScriptOk(st, e)
    [] e.op = "model" -> ModelTextOk(st, e)
    [] e.op = "casf" -> CasFormOk(st, e.lang, r, e.f)
    [] e.op = "casp" -> CasPolyOk(st, e.lang, r, PSumList(e.p))
    [] e.op = "casu" -> CasPolyOk(st, e.lang, r, UniPoly(st.nv, e.p))
    [] e.op = "show" -> Spells(st.nv, r, PSumList(e.p))
    [] e.op = "spoly" -> LET w == ParseAll(st.nv, e.toks) IN w.ok /\ Spells(st.nv, r.toks, w.p) /\ Cardinality(NamesIn(r.toks)) = r.nvars
    [] e.op = "ppoly" -> LET w == ParseAll(st.nv, e.toks) IN w.ok => Spells(st.nv, r.toks, w.p) /\ Cardinality(NamesIn(r.toks)) = r.nvars
    [] e.op = "prat" -> LET w == RatOf(st.nv, e.toks)  n == ParseAll(st.nv, r.num)  d == ParseAll(st.nv, r.den) IN
         (w[1].ok /\ w[2].ok /\ ~PIsZero(w[2].p)) => n.ok /\ d.ok /\ ~PIsZero(d.p) /\ PMul(w[1].p, d.p) = PMul(n.p, w[2].p)
    [] e.op = "pform" -> LET w == ParseFAll(e.toks) IN w.ok => BoolsIn(r) \subseteq 1..st.nb /\ SameBool(st, w.f, r)
    [] e.op = "dimacs" -> DimacsOk(st, e)
    [] e.op = "rdimacs" -> RDimacsOk(e)
    [] e.op = "ropb" -> OpbOk(e)
TAllowed(st, e) == TOk(st, e)
TAfter(st, e) == st
\* In sums of terms, a variable that occurs twice in a term may be refused.
TThrows(st, e) == e.op = "spoly" /\ Twice(e.toks)
=============================================================================
