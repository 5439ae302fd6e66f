-------------------------------- MODULE T_Rew --------------------------------
EXTENDS Rew, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
