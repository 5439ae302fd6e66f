-------------------------------- MODULE T_GB --------------------------------
EXTENDS GB, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
