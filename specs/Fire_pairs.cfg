SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxQueue = 3
 EdgesOnly = TRUE
INVARIANTS NotMore

CHECK_DEADLOCK FALSE
