-------------------------------- MODULE T_Ran --------------------------------
EXTENDS Ran, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
