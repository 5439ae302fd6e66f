-------------------------------- MODULE T_Box --------------------------------
EXTENDS Box, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
