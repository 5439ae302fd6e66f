-------------------------------- MODULE T_Thr --------------------------------
EXTENDS Thr, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
