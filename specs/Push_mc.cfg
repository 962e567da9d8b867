SPECIFICATION Spec
CONSTANTS
 Nodes = {0, 1, 2}
 Unit = 4194304
 MaxDeg = 2
INVARIANTS Certificate Finished OnlyReachable
PROPERTY Terminates
CHECK_DEADLOCK FALSE
