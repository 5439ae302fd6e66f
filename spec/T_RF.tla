-------------------------------- MODULE T_RF --------------------------------
EXTENDS RF, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
