-------------------------------- MODULE T_Ivl --------------------------------
EXTENDS Ivl, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
