SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxHops = 2
 MaxLen = 10
 MaxWin = 10
 OneWindow = FALSE
INVARIANTS Reached Edges Pairs Room

CHECK_DEADLOCK FALSE
