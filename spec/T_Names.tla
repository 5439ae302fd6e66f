-------------------------------- MODULE T_Names --------------------------------
EXTENDS Names, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
