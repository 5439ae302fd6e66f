-------------------------------- MODULE T_Sym --------------------------------
EXTENDS Sym, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
