-------------------------------- MODULE T_BV --------------------------------
EXTENDS BV, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
