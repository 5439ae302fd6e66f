-------------------------------- MODULE T_Res --------------------------------
EXTENDS Res, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
