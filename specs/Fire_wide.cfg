SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxQueue = 2
 EdgesOnly = FALSE
INVARIANTS Subgraph NotMore AsAsked Graphs

CHECK_DEADLOCK FALSE
