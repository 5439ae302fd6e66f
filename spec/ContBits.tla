------------------------------ MODULE ContBits ------------------------------
(* Bit sets (C25).  A bit set is a set of naturals that agrees with its     *)
(* default d everywhere but at the finitely many positions in x.            *)
EXTENDS Integers, Sequences, FiniteSets
Begin(e) == [i \in 1..e.k |-> [d |-> FALSE, x |-> {}]]
Has(b, n) == (n \in b.x) # b.d
Put(b, n, v) == [b EXCEPT !.x = IF v = b.d THEN @ \ {n} ELSE @ \cup {n}]
PutAll(b, ns, v) == [b EXCEPT !.x = IF v = b.d THEN @ \ ns ELSE @ \cup ns]
Set(l) == {l[i] : i \in 1..Len(l)}
\* Pointwise combination: outside both exception sets the defaults decide.
Comb(a, b, f(_, _)) == LET d == f(a.d, b.d) IN [d |-> d, x |-> {n \in a.x \cup b.x : f(Has(a, n), Has(b, n)) # d}]
FAnd(p, q) == p /\ q
FOr(p, q) == p \/ q
FSub(p, q) == p /\ ~q
Bin(o, a, b) == CASE o = "and" -> Comb(a, b, FAnd) [] o = "or" -> Comb(a, b, FOr) [] o = "sub" -> Comb(a, b, FSub)
Subset(a, b) == LET c == Comb(a, b, FSub) IN ~c.d /\ c.x = {}
Finite(b) == ~b.d
MinOf(s) == CHOOSE n \in s : \A m \in s : n <= m
Size0 == -1
\* -1 stands for "no such position".
FirstFrom(b, n) == LET s == {m \in b.x : m >= n} IN IF s = {} THEN Size0 ELSE MinOf(s)
Moves(c) == c.op \in {"new", "init", "set", "seti", "reset", "rsz", "bin", "inp", "not", "copy"}
Reg(c) == IF c.op \in {"set", "seti", "reset", "rsz", "inp"} THEN c.a ELSE c.d
\* Resizing stores more positions (with the given value) or forgets the highest ones.
Resize(b, sz, n, v) == IF n >= sz THEN PutAll(b, sz..(n - 1), v) ELSE [b EXCEPT !.x = {m \in @ : m < n}]
Val(st, c) ==
  CASE c.op = "new" -> [d |-> c.v, x |-> {}]
    [] c.op = "init" -> PutAll([d |-> c.v, x |-> {}], Set(c.l), TRUE)
    [] c.op = "set" -> Put(st[c.a], c.n, c.v)
    [] c.op = "seti" -> PutAll(st[c.a], c.n..c.m, c.v)
    [] c.op = "reset" -> Put(st[c.a], c.n, FALSE)
    [] c.op = "rsz" -> Resize(st[c.a], c.r.psz, c.n, IF c.dv THEN st[c.a].d ELSE c.v)
    [] c.op = "bin" -> Bin(c.o, st[c.a], st[c.b])
    [] c.op = "inp" -> Bin(c.o, st[c.a], st[c.b])
    [] c.op = "not" -> [st[c.a] EXCEPT !.d = ~@]
    [] c.op = "copy" -> st[c.a]
\* What a look at a bit set shows: its members below the limit and one far position.
Lim == 330
Shows(r, b) == Set(r.l) = {n \in 0..Lim : Has(b, n)} /\ r.far = b.d /\ \A n \in b.x : n < r.sz
Pre(st, c) == CASE c.op \in {"count", "first", "next", "list"} -> Finite(st[c.a]) [] OTHER -> TRUE
Ok(st, e) ==
  LET r == e.r IN
  CASE Moves(e) -> Shows(r, Val(st, e))
    [] e.op = "test" -> r = Has(st[e.a], e.n)
    [] e.op = "count" -> LET x == st[e.a].x IN r.c = Cardinality(x) /\ r.any = (x # {}) /\ r.none = (x = {})
    [] e.op = "first" -> r = FirstFrom(st[e.a], 0)
    [] e.op = "next" -> r = FirstFrom(st[e.a], e.n + 1)
    [] e.op = "list" -> LET x == st[e.a].x IN Set(r) = x /\ Len(r) = Cardinality(x) /\ \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1]
    [] e.op = "cmp" -> r.eq = (st[e.a] = st[e.b]) /\ r.sub = Subset(st[e.a], st[e.b]) /\ (r.eq => r.hash)
    \* The order is total on the represented sets.
    [] e.op = "ord" -> LET R == DOMAIN st IN
         /\ \A i \in R, j \in R : (st[i] = st[j]) = (~r[i][j] /\ ~r[j][i])
         /\ \A i \in R, j \in R : ~(r[i][j] /\ r[j][i])
         /\ \A i \in R, j \in R, k \in R : (r[i][j] /\ r[j][k]) => r[i][k]
Next(st, e) == IF Moves(e) THEN [st EXCEPT ![Reg(e)] = Val(st, e)] ELSE st
=============================================================================
