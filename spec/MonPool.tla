------------------------------- MODULE MonPool -------------------------------
(***************************************************************************)
(* The pool of shared monomials with several threads (C27).  Objects are    *)
(* counted references; the pool knows objects by content without owning     *)
(* them.  An object whose last reference is gone is dying until its thread  *)
(* has removed it from the pool; a create in between finds it there but     *)
(* cannot revive it.                                                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Contents, MaxObj
VARIABLES cnt, con, ident, pool, used, held, pc
vars == <<cnt, con, ident, pool, used, held, pc>>
Objs == 1..MaxObj
None == 0
\* cnt: references, con: content (None: object not made yet), ident: identifier, used: identifiers in use,
\* held: references of a thread by content, pc: the object a thread is about to remove from the pool.
Init == /\ cnt = [o \in Objs |-> 0] /\ con = [o \in Objs |-> None] /\ ident = [o \in Objs |-> 0]
        /\ pool = [c \in Contents |-> None] /\ used = {} /\ held = [t \in Threads |-> [c \in Contents |-> None]] /\ pc = [t \in Threads |-> None]
Fresh == CHOOSE o \in Objs : con[o] = None /\ \A p \in Objs : con[p] = None => o <= p
LeastId == CHOOSE i \in 1..(MaxObj + 1) : i \notin used /\ \A j \in 1..(MaxObj + 1) : j \notin used => i <= j
\* Under the pool's lock.
Create(t, c) ==
  /\ pc[t] = None /\ held[t][c] = None
  /\ IF pool[c] # None /\ cnt[pool[c]] > 0
     THEN /\ cnt' = [cnt EXCEPT ![pool[c]] = @ + 1] /\ held' = [held EXCEPT ![t][c] = pool[c]] /\ UNCHANGED <<con, ident, pool, used, pc>>
     ELSE /\ \E o \in Objs : con[o] = None
          /\ cnt' = [cnt EXCEPT ![Fresh] = 1] /\ con' = [con EXCEPT ![Fresh] = c] /\ ident' = [ident EXCEPT ![Fresh] = LeastId]
          /\ used' = used \cup {LeastId} /\ pool' = [pool EXCEPT ![c] = Fresh] /\ held' = [held EXCEPT ![t][c] = Fresh] /\ UNCHANGED pc
\* Not under the lock: the last reference goes first.
Release(t, c) ==
  /\ pc[t] = None /\ held[t][c] # None
  /\ LET o == held[t][c] IN
     /\ cnt' = [cnt EXCEPT ![o] = @ - 1] /\ held' = [held EXCEPT ![t][c] = None]
     /\ pc' = [pc EXCEPT ![t] = IF cnt[o] = 1 THEN o ELSE None]
  /\ UNCHANGED <<con, ident, pool, used>>
\* Under the lock: remove the object itself, not its successor.
Unlink(t) ==
  /\ pc[t] # None
  /\ LET o == pc[t] IN /\ pool' = [pool EXCEPT ![con[o]] = IF @ = o THEN None ELSE @] /\ used' = used \ {ident[o]}
  /\ pc' = [pc EXCEPT ![t] = None] /\ UNCHANGED <<cnt, con, ident, held>>
Next == \E t \in Threads : Unlink(t) \/ \E c \in Contents : Create(t, c) \/ Release(t, c)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Unlink(t))
\* ---- what users rely on --------------------------------------------------------
Live(o) == cnt[o] > 0
Gets == \A t \in Threads, c \in Contents : held[t][c] # None => con[held[t][c]] = c /\ Live(held[t][c])
Unique == \A o, p \in Objs : Live(o) /\ Live(p) /\ con[o] = con[p] => o = p
Ids == \A o, p \in Objs : Live(o) /\ (Live(p) \/ \E t \in Threads : pc[t] = p) /\ o # p => ident[o] # ident[p]
Found == \A o \in Objs : Live(o) => pool[con[o]] = o
Counts == \A o \in Objs : cnt[o] = Cardinality({t \in Threads : \E c \in Contents : held[t][c] = o})
Clean == (\A t \in Threads : pc[t] = None) => {pool[c] : c \in Contents} \ {None} = {o \in Objs : Live(o)} /\ Cardinality(used) = Cardinality({o \in Objs : Live(o)})
Inv == Gets /\ Unique /\ Ids /\ Found /\ Counts /\ Clean
=============================================================================
