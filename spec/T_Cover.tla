-------------------------------- MODULE T_Cover --------------------------------
EXTENDS Cover, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
