SPECIFICATION Spec
CONSTANTS N = 2 M = 1 Either = FALSE OneWay = TRUE
CHECK_DEADLOCK FALSE
INVARIANT BothWays
