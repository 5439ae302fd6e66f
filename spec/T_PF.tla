-------------------------------- MODULE T_PF --------------------------------
EXTENDS PF, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
