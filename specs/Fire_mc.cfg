SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxQueue = 3
 EdgesOnly = FALSE
INVARIANTS Subgraph NotMore AsAsked
PROPERTY Ends
CHECK_DEADLOCK FALSE
