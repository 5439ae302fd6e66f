------------------------------ MODULE ContTree ------------------------------
(* Ordered trees (C25).  Nodes are numbered in the order of creation; ch maps *)
(* every node to its children, par to its parent (0: root), v to its value.   *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [n |-> 0, root |-> 0, ch |-> [x \in {} |-> <<>>], par |-> [x \in {} |-> 0], v |-> [x \in {} |-> 0]]
Live(st) == DOMAIN st.ch
RECURSIVE Flat(_, _)
Flat(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o Flat(F, Tail(s))
RECURSIVE Pre1(_, _)
Pre1(t, x) == LET F(y) == Pre1(t, y) IN <<x>> \o Flat(F, t.ch[x])
RECURSIVE Post1(_, _)
Post1(t, x) == LET F(y) == Post1(t, y) IN Flat(F, t.ch[x]) \o <<x>>
PreO(t) == IF t.root = 0 THEN <<>> ELSE Pre1(t, t.root)
PostO(t) == IF t.root = 0 THEN <<>> ELSE Post1(t, t.root)
RECURSIVE Depth(_, _)
Depth(t, x) == IF t.par[x] = 0 THEN 0 ELSE 1 + Depth(t, t.par[x])
RECURSIVE Path(_, _)
Path(t, x) == IF x = 0 THEN <<>> ELSE <<x>> \o Path(t, t.par[x])
Leaves(t) == SelectSeq(PreO(t), LAMBDA x : t.ch[x] = <<>>)
Level(t, d) == SelectSeq(PreO(t), LAMBDA x : Depth(t, x) = d)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MaxOf(S) == CHOOSE n \in S : \A m \in S : m <= n
Height(t) == MaxOf({0} \cup {Depth(t, x) : x \in Live(t)})
Below(t, x) == {Pre1(t, x)[i] : i \in 1..Len(Pre1(t, x))}
HeightOf(t, x) == MaxOf({Depth(t, y) : y \in Below(t, x)}) - Depth(t, x)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Sibs(t, x) == IF t.par[x] = 0 THEN <<x>> ELSE t.ch[t.par[x]]
\* Follows x in the sequence s (0: nothing does).
After1(s, x) == IF Pos(s, x) = Len(s) THEN 0 ELSE s[Pos(s, x) + 1]
Add(t, p, i, w) ==
  LET x == t.n + 1
      c == IF p = 0 THEN <<>> ELSE t.ch[p]
      ch1 == [y \in Live(t) \cup {x} |-> IF y = x THEN <<>>
                ELSE IF y = p THEN SubSeq(c, 1, i - 1) \o <<x>> \o SubSeq(c, i, Len(c)) ELSE t.ch[y]]
  IN  [n |-> x, root |-> IF p = 0 THEN x ELSE t.root, ch |-> ch1,
       par |-> [y \in Live(t) \cup {x} |-> IF y = x THEN p ELSE t.par[y]],
       v |-> [y \in Live(t) \cup {x} |-> IF y = x THEN w ELSE t.v[y]]]
AddLast(t, p, w) == Add(t, p, Len(t.ch[p]) + 1, w)
Restrict(f, S) == [x \in S |-> f[x]]
Cut(t, S) ==
  LET K == Live(t) \ S IN
  [n |-> t.n, root |-> IF t.root \in S THEN 0 ELSE t.root,
   ch |-> [x \in K |-> SelectSeq(t.ch[x], LAMBDA y : y \notin S)], par |-> Restrict(t.par, K), v |-> Restrict(t.v, K)]
Erase(t, x) == Cut(t, Below(t, x))
EraseCh(t, x) == Cut(t, Below(t, x) \ {x})
Pre(t, c) ==
  CASE c.op \in {"app", "repl", "erase", "erch", "node"} -> c.h \in Live(t) /\ ((c.op = "erase" /\ c.it = "leaf") => t.ch[c.h] = <<>>)
    [] c.op = "ins" -> c.h \in Live(t) /\ c.h # t.root
    [] OTHER -> TRUE
Next(t, c) ==
  CASE c.op = "root" -> IF t.root = 0 THEN Add(t, 0, 1, c.v) ELSE [t EXCEPT !.v[t.root] = c.v]
    [] c.op = "app0" -> LET u == IF t.root = 0 THEN Add(t, 0, 1, 0) ELSE t IN AddLast(u, u.root, c.v)
    [] c.op = "app" -> AddLast(t, c.h, c.v)
    [] c.op = "ins" -> Add(t, t.par[c.h], Pos(Sibs(t, c.h), c.h), c.v)
    [] c.op = "repl" -> [t EXCEPT !.v[c.h] = c.v]
    [] c.op = "erase" -> Erase(t, c.h)
    [] c.op = "erch" -> EraseCh(t, c.h)
    [] c.op = "clear" -> Cut(t, Live(t))
    [] OTHER -> t
\* The position after the erased subtree in the order of the iterator.
NextPos(t, x, it) ==
  LET skip == Below(t, x) \ {x}
      order == CASE it = "pre" -> PreO(t) [] it = "post" -> PostO(t) [] it = "leaf" -> PreO(t)
                 [] it = "kids" -> Sibs(t, x) [] it = "depth" -> Level(t, Depth(t, x))
      rest == SelectSeq(SubSeq(order, Pos(order, x) + 1, Len(order)), LAMBDA y : y \notin skip /\ (it = "leaf" => t.ch[y] = <<>>))
  IN  IF rest = <<>> \/ x = t.root THEN 0 ELSE rest[1]
Ok(t, e) ==
  LET r == e.r IN
  CASE e.op \in {"root", "app0", "app", "ins", "repl", "erase", "erch", "clear", "copy"} ->
         LET u == Next(t, e) IN
         /\ r.pre = PreO(u) /\ r.post = PostO(u) /\ r.rpre = Rev(PreO(u)) /\ r.rpost = Rev(PostO(u))
         /\ r.vals = [i \in 1..Len(PreO(u)) |-> u.v[PreO(u)[i]]]
         /\ (e.op = "erase" => r.next = NextPos(t, e.h, e.it))
         /\ (e.op \in {"app0", "app", "ins"} => r.at = u.n) /\ (e.op = "root" => r.at = u.root)
    [] e.op = "walk" ->
         /\ r.leaf = Leaves(t) /\ r.rleaf = Rev(Leaves(t)) /\ r.height = Height(t)
         /\ r.level = Level(t, e.d) /\ r.rlevel = Rev(Level(t, e.d))
         /\ r.bpre = Rev(PreO(t)) /\ r.bpost = Rev(PostO(t)) /\ r.bleaf = Rev(Leaves(t)) /\ r.blevel = Rev(Level(t, e.d))
         /\ r.frpre = PreO(t) /\ r.frlevel = Level(t, e.d)
         /\ r.txt = [i \in 1..Len(PreO(t)) |-> <<Depth(t, PreO(t)[i]), t.v[PreO(t)[i]]>>]
    [] e.op = "node" ->
         LET x == e.h  s == Sibs(t, x)  i == Pos(s, x) IN
         /\ r.kids = t.ch[x] /\ r.rkids = Rev(t.ch[x]) /\ r.bkids = Rev(t.ch[x]) /\ r.path = Path(t, x)
         /\ r.depth = Depth(t, x) /\ r.below = HeightOf(t, x) /\ r.v = t.v[x]
         /\ r.isleaf = (t.ch[x] = <<>>) /\ r.isleft = (i = 1) /\ r.isright = (i = Len(s)) /\ r.isroot = (x = t.root) /\ r.valid
         /\ r.par = t.par[x] /\ r.left = (IF i = 1 THEN 0 ELSE s[i - 1])
         /\ r.nxt = After1(PreO(t), x) /\ r.post = x
         /\ r.skip = NextPos(t, x, "pre")
=============================================================================
