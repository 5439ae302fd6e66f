-------------------------------- MODULE T_UP --------------------------------
EXTENDS UP, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
