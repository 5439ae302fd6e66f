-------------------------------- MODULE T_Rel --------------------------------
EXTENDS Rel, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
