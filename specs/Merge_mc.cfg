SPECIFICATION Spec
CONSTANTS
 Servers = {0, 1, 2}
 NEdges = 3
 Count = 2
INVARIANTS Right NothingEarly
PROPERTY Finishes
CHECK_DEADLOCK FALSE
