------------------------------- MODULE T_Text -------------------------------
EXTENDS Text, TraceData
CONSTANT SkipRest
VARIABLES l, st, skip
INSTANCE TraceStep WITH Begin <- TBegin, Allowed <- TAllowed, After <- TAfter, Throws <- TThrows
=============================================================================
