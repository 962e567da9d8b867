SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxQueue = 3
 EdgesOnly = TRUE

PROPERTY Ends
CHECK_DEADLOCK FALSE
