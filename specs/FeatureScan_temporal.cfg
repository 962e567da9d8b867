SPECIFICATION Spec
CONSTANTS
 MaxFeats = 2
 MaxSize = 2
 MaxReq = 2
 Temporal = TRUE
 MaxTime = 2
INVARIANT Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
