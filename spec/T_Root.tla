-------------------------------- MODULE T_Root --------------------------------
EXTENDS Root, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
