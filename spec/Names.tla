-------------------------------- MODULE Names --------------------------------
(* Identities of variables, sorts and function symbols (C24).                 *)
EXTENDS Integers, Sequences, TLC
V == INSTANCE NameVars
S == INSTANCE NameSorts
U == INSTANCE NameUFs
Begin(e) == [kind |-> e.kind, s |-> CASE e.kind = "vars" -> V!Begin(e) [] e.kind = "sorts" -> S!Begin(e) [] e.kind = "ufs" -> U!Begin(e)]
Throws(st, e) == FALSE
Pre(st, e) == CASE st.kind = "vars" -> V!Pre(st.s, e) [] st.kind = "sorts" -> S!Pre(st.s, e) [] st.kind = "ufs" -> U!Pre(st.s, e)
Ok(st, e) == CASE st.kind = "vars" -> V!Ok(st.s, e) [] st.kind = "sorts" -> S!Ok(st.s, e) [] st.kind = "ufs" -> U!Ok(st.s, e)
Move(st, e) == CASE st.kind = "vars" -> V!Next(st.s, e) [] st.kind = "sorts" -> S!Next(st.s, e) [] st.kind = "ufs" -> U!Next(st.s, e)
Allowed(st, e) == IF "skip" \in DOMAIN e THEN ~Pre(st, e) ELSE Pre(st, e) /\ Ok(st, e)
After(st, e) == IF "skip" \in DOMAIN e THEN st ELSE [st EXCEPT !.s = Move(st, e)]
=============================================================================
