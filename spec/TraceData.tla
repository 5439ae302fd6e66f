----------------------------- MODULE TraceData ------------------------------
(* The recorded trace.  Kept apart from TraceStep so that TLC evaluates this *)
(* constant once (it does not for definitions of an instantiated module).    *)
EXTENDS Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
