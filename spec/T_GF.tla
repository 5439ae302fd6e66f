-------------------------------- MODULE T_GF --------------------------------
EXTENDS GF, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
