SPECIFICATION Spec
CONSTANTS
 MaxFeats = 2
 MaxSize = 2
 MaxReq = 3
 Temporal = FALSE
 MaxTime = 0
INVARIANT Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
