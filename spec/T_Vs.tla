-------------------------------- MODULE T_Vs --------------------------------
EXTENDS Vs, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
