-------------------------------- MODULE T_Opt --------------------------------
EXTENDS Opt, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
