-------------------------------- MODULE Cont --------------------------------
(* Utility containers (C25); every session runs one container.               *)
EXTENDS Integers, Sequences, TLC
B == INSTANCE ContBits
W == INSTANCE ContVec
I == INSTANCE ContIds
H == INSTANCE ContHeap
C == INSTANCE ContCache
T == INSTANCE ContTree
Begin(e) == [kind |-> e.kind, s |->
  CASE e.kind = "bits" -> B!Begin(e) [] e.kind = "vec" -> W!Begin(e) [] e.kind \in {"pool", "gen"} -> I!Begin(e)
    [] e.kind = "heap" -> H!Begin(e) [] e.kind = "cache" -> C!Begin(e) [] e.kind = "tree" -> T!Begin(e)]
Throws(st, e) == FALSE
Pre(st, e) ==
  CASE st.kind = "bits" -> B!Pre(st.s, e) [] st.kind = "vec" -> W!Pre(st.s, e) [] st.kind \in {"pool", "gen"} -> I!Pre(st.s, e)
    [] st.kind = "heap" -> H!Pre(st.s, e) [] st.kind = "cache" -> C!Pre(st.s, e) [] st.kind = "tree" -> T!Pre(st.s, e)
Ok(st, e) ==
  CASE st.kind = "bits" -> B!Ok(st.s, e) [] st.kind = "vec" -> W!Ok(st.s, e) [] st.kind \in {"pool", "gen"} -> I!Ok(st.s, e)
    [] st.kind = "heap" -> H!Ok(st.s, e) [] st.kind = "cache" -> C!Ok(st.s, e) [] st.kind = "tree" -> T!Ok(st.s, e)
Move(st, e) ==
  CASE st.kind = "bits" -> B!Next(st.s, e) [] st.kind = "vec" -> W!Next(st.s, e) [] st.kind \in {"pool", "gen"} -> I!Next(st.s, e)
    [] st.kind = "heap" -> H!Next(st.s, e) [] st.kind = "cache" -> C!Next(st.s, e) [] st.kind = "tree" -> T!Next(st.s, e)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE [st EXCEPT !.s = Move(st, e)]
=============================================================================
