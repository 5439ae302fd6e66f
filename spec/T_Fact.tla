-------------------------------- MODULE T_Fact --------------------------------
EXTENDS Fact, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
