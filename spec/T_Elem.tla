-------------------------------- MODULE T_Elem --------------------------------
EXTENDS Elem, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
