-------------------------------- MODULE T_MP --------------------------------
EXTENDS MP, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
