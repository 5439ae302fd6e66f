------------------------------ MODULE MC_Cont -------------------------------
(* Bounded instances of the containers: consistency of the abstract trees and *)
(* bit sets, the two id-allocation algorithms against the abstract pool, the  *)
(* array heap against the abstract heap, and behaviours for replay.           *)
EXTENDS Cont, Json, Randomization, FiniteSets
CONSTANTS Kind, Depth, Width
VARIABLES st, conc, hist, done
Hd == CASE Kind = "tree" -> [kind |-> "tree"] [] Kind = "pool" -> [kind |-> "pool", base |-> 0] [] Kind = "gen" -> [kind |-> "gen", base |-> 1]
        [] Kind = "heap" -> [kind |-> "heap"] [] Kind = "bits" -> [kind |-> "bits", k |-> 2]
MinS(S) == CHOOSE n \in S : \A m \in S : n <= m
MaxS(S) == CHOOSE n \in S : \A m \in S : n >= m
Conc0 == CASE Kind = "pool" -> {} [] Kind = "gen" -> [next |-> 1, free |-> {}] [] Kind = "heap" -> <<>> [] OTHER -> <<>>
Init == st = Begin(Hd) /\ conc = Conc0 /\ hist = <<>> /\ done = FALSE
------------------------------------------------------------------------------
\* Commands of the tree, numbered nodes 1..4, and of the bit set.
TreeCmds == {[op |-> o, h |-> h, v |-> v] : o \in {"app", "ins", "repl"}, h \in 1..9, v \in {1, 2}}
            \cup {[op |-> "erase", h |-> h, it |-> it] : h \in 1..9, it \in {"pre", "post", "kids", "leaf", "depth"}}
            \cup {[op |-> o, h |-> h] : o \in {"erch", "node"}, h \in 1..9}
            \cup {[op |-> "walk", d |-> d] : d \in 0..2} \cup {[op |-> o, v |-> 5] : o \in {"root", "app0"}}
            \cup {[op |-> "clear"], [op |-> "copy", x |-> TRUE]}
P3 == {0, 1, 31, 63, 64, 65}
BitsCmds == {[op |-> "new", d |-> d, v |-> v] : d \in 1..2, v \in BOOLEAN}
            \cup {[op |-> o, a |-> a, n |-> n, v |-> v] : o \in {"set", "reset", "test"}, a \in 1..2, n \in P3, v \in BOOLEAN}
            \cup {[op |-> "seti", a |-> a, n |-> n, m |-> n + m, v |-> v] : a \in 1..2, n \in P3, m \in {0, 1, 2}, v \in BOOLEAN}
            \cup {[op |-> o, o |-> f, d |-> d, a |-> a, b |-> b] : o \in {"bin", "inp"}, f \in {"and", "or", "sub"}, d \in 1..2, a \in 1..2, b \in 1..2}
            \cup {[op |-> o, d |-> d, a |-> a] : o \in {"not", "copy"}, d \in 1..2, a \in 1..2}
            \cup {[op |-> "cmp", a |-> a, b |-> b] : a \in 1..2, b \in 1..2} \cup {[op |-> "ord", a |-> 1]}
            \cup {[op |-> o, a |-> a] : o \in {"count", "first", "list"}, a \in 1..2}
GenCmds == IF Kind = "tree" THEN TreeCmds ELSE BitsCmds
Silent(c) == c.op \in {"node", "walk", "copy", "test", "cmp", "ord", "count", "first", "list"} /\ ~(Kind = "bits" /\ c.op = "copy")
GNext ==
  \/ /\ Len(hist) < Depth
     /\ \E c \in RandomSubset(Width, GenCmds) : Pre(st, c) /\ st' = (IF Silent(c) THEN st ELSE [st EXCEPT !.s = Move(st, c)]) /\ hist' = Append(hist, c)
     /\ UNCHANGED <<conc, done>>
  \/ Len(hist) = Depth /\ ~done /\ PrintT("HIST" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<st, conc, hist>>
------------------------------------------------------------------------------
\* Exhaustive: every history of Depth steps, the history only counted.
Tick == Len(hist) < Depth /\ hist' = Append(hist, 0) /\ UNCHANGED done
TreeNext == Tick /\ UNCHANGED conc /\ \E c \in {x \in TreeCmds : ~Silent(x) /\ x.op # "repl" /\ ("v" \in DOMAIN x => x.v # 2)} :
              Pre(st, c) /\ st' = [st EXCEPT !.s = Move(st, c)]
Perm(s, S) == {s[i] : i \in 1..Len(s)} = S /\ Len(s) = Cardinality(S)
TreeInv == Kind = "tree" =>
  LET t == st.s IN
  /\ (t.root = 0) = (T!Live(t) = {})
  /\ \A x \in T!Live(t) : /\ (t.par[x] = 0) = (x = t.root)
                          /\ \A i \in 1..Len(t.ch[x]) : t.ch[x][i] \in T!Live(t) /\ t.par[t.ch[x][i]] = x
                          /\ x # t.root => Cardinality({i \in 1..Len(t.ch[t.par[x]]) : t.ch[t.par[x]][i] = x}) = 1
                          /\ T!Path(t, x)[Len(T!Path(t, x))] = t.root
                          /\ x \in T!Below(t, x) /\ T!HeightOf(t, x) + T!Depth(t, x) <= T!Height(t)
                          \* the next position survives the removal
                          /\ \A it \in {"pre", "post", "kids", "depth"} : LET n == T!NextPos(t, x, it) IN n # 0 => n \in T!Live(T!Erase(t, x))
  /\ Perm(T!PreO(t), T!Live(t)) /\ Perm(T!PostO(t), T!Live(t))
  /\ \A x \in T!Live(t), y \in T!Live(t) : (x # y /\ y \in T!Below(t, x)) =>
        T!Pos(T!PreO(t), x) < T!Pos(T!PreO(t), y) /\ T!Pos(T!PostO(t), x) > T!Pos(T!PostO(t), y)
\* Lowest free id, and the generator with a heap of free ids below next.
PoolGet == MinS((0..Cardinality(conc)) \ conc)
GenFree(c, id) ==
  IF id # c.next - 1 THEN [c EXCEPT !.free = @ \cup {id}]
  ELSE LET low == MaxS({0} \cup ({i \in 0..(id - 1) : i \notin c.free})) IN [next |-> low + 1, free |-> c.free \ (low..id)]
IdNext ==
  /\ Tick
  /\ \/ LET id == IF Kind = "pool" THEN PoolGet ELSE IF conc.free = {} THEN conc.next ELSE MaxS(conc.free)
            c1 == IF Kind = "pool" THEN conc \cup {id} ELSE IF conc.free = {} THEN [conc EXCEPT !.next = @ + 1] ELSE [conc EXCEPT !.free = @ \ {id}]
            e == [op |-> "get", r |-> [id |-> id, bound |-> IF Kind = "pool" THEN MaxS(c1) ELSE c1.next - 1]]
        IN  Assert(Ok(st, e), <<"not allowed", st, e>>) /\ st' = After(st, e) /\ conc' = c1
     \/ \E h \in 1..Len(st.s.hs) : LET e == [op |-> "free", h |-> h, r |-> [bound |-> 100]]  id == st.s.hs[h] IN
        /\ Pre(st, e) /\ st' = After(st, e)
        /\ conc' = IF Kind = "pool" THEN conc \ {id} ELSE GenFree(conc, id)
\* The array heap: sift the hole down to a leaf, then the value up.
Swap(a, i, x) == [a EXCEPT ![i] = x]
RECURSIVE Up(_, _, _)
Up(a, i, x) == IF i = 1 THEN Swap(a, 1, x) ELSE IF a[i \div 2][1] < x[1] THEN Up(Swap(a, i, a[i \div 2]), i \div 2, x) ELSE Swap(a, i, x)
RECURSIVE Down(_, _)
Down(a, i) == IF 2 * i > Len(a) THEN <<a, i>>
              ELSE LET c == IF 2 * i + 1 <= Len(a) /\ a[2 * i][1] < a[2 * i + 1][1] THEN 2 * i + 1 ELSE 2 * i IN Down(Swap(a, i, a[c]), c)
HPush(a, x) == Up(Append(a, x), Len(a) + 1, x)
HRemove(a, i) == LET m == a[Len(a)]  b == SubSeq(a, 1, Len(a) - 1) IN
                 IF i > Len(b) THEN b ELSE LET d == Down(b, i) IN Up(d[1], d[2], m)
View(a) == [l |-> a, copy |-> a, n |-> Len(a), empty |-> a = <<>>] @@ (IF a = <<>> THEN << >> ELSE [top |-> a[1]])
HeapNext ==
  /\ Tick
  /\ \/ \E p \in 1..3 : LET a == HPush(conc, <<p, st.s.n + 1>>)  e == [op |-> "push", p |-> p, r |-> View(a)] IN
          Assert(Ok(st, e), <<"not allowed", st, e>>) /\ st' = After(st, e) /\ conc' = a
     \/ \E i \in 1..Len(conc) : LET a == HRemove(conc, i)  e == [op |-> IF i = 1 THEN "pop" ELSE "poppos", r |-> View(a) @@ [x |-> conc[i]]] IN
          Assert(Ok(st, e), <<"not allowed", st, e>>) /\ st' = After(st, e) /\ conc' = a
Next == CASE Kind = "tree" -> TreeNext [] Kind \in {"pool", "gen"} -> IdNext [] Kind = "heap" -> HeapNext
Inv == TreeInv
=============================================================================
