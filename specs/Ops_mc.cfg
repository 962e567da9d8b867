SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxHops = 3
 MaxLen = 6
 MaxWin = 6
 OneWindow = FALSE
INVARIANTS Reached Edges Pairs Room Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
