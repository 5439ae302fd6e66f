-------------------------------- MODULE T_Cont --------------------------------
EXTENDS Cont, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
