----------------------------- MODULE TraceStep ------------------------------
(***************************************************************************)
(* The trace specification shared by all areas.  The trace is a sequence   *)
(* of recorded events (command plus observed result) from many sessions;   *)
(* an event is accepted iff the area's specification allows its result in  *)
(* the current abstract state.  An event with a field "crash" (the library *)
(* crashed, failed an assertion or did not return) is never allowed.       *)
(* An exception is allowed iff Throws says so.                             *)
(* After a rejection the rest of the session is skipped if SkipRest.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Begin(_), Allowed(_, _), After(_, _), Throws(_, _), SkipRest, Trace
VARIABLES l, st, skip

TInit == l = 1 /\ st = <<>> /\ skip = FALSE

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
       IF e.op = "begin" /\ "crash" \notin DOMAIN e
         THEN st' = Begin(e) /\ skip' = FALSE
       ELSE IF skip THEN UNCHANGED <<st, skip>>
       ELSE IF "throw" \in DOMAIN e /\ Throws(st, e) THEN UNCHANGED <<st, skip>>
       ELSE IF "crash" \in DOMAIN e \/ "throw" \in DOMAIN e \/ ~Allowed(st, e)
         THEN PrintT(<<"REJECT", l>>) /\ skip' = SkipRest /\ UNCHANGED st
       ELSE st' = After(st, e) /\ UNCHANGED skip
  /\ (l = Len(Trace)) => PrintT(<<"DONE", l>>)
=============================================================================
