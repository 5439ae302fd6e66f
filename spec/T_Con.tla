-------------------------------- MODULE T_Con --------------------------------
EXTENDS Con, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
