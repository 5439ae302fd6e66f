-------------------------------- MODULE T_Thom --------------------------------
EXTENDS Thom, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
