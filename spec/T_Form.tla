-------------------------------- MODULE T_Form --------------------------------
EXTENDS Form, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep
=============================================================================
