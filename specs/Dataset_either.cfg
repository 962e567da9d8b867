SPECIFICATION Spec
CONSTANTS N = 2 M = 1 Either = TRUE OneWay = FALSE
CHECK_DEADLOCK FALSE
INVARIANT NoLeak
