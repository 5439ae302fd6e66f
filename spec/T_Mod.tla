-------------------------------- MODULE T_Mod --------------------------------
EXTENDS Mod, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
