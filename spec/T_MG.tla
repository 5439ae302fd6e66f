-------------------------------- MODULE T_MG --------------------------------
EXTENDS MG, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
