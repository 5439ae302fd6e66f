-------------------------------- MODULE T_FIvl --------------------------------
EXTENDS FIvl, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
