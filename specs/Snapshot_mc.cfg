SPECIFICATION Spec
CONSTANTS
 MaxEdges = 3
 MaxTime = 3
INVARIANTS OnlyLiving Exact Disjoint
PROPERTY Terminates
CHECK_DEADLOCK FALSE
