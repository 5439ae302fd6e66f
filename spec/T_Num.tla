-------------------------------- MODULE T_Num --------------------------------
EXTENDS Num, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
