------------------------------- MODULE T_Mono -------------------------------
EXTENDS Mono, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
