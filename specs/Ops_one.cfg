SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxHops = 3
 MaxLen = 6
 MaxWin = 6
 OneWindow = TRUE
INVARIANTS Pairs
CHECK_DEADLOCK FALSE
