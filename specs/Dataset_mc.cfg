SPECIFICATION Spec
CONSTANTS N = 3 M = 3 Either = FALSE OneWay = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS NoLeak BothWays Complete Exact Maximal
PROPERTY Ends
