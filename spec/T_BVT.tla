-------------------------------- MODULE T_BVT --------------------------------
EXTENDS BVT, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
