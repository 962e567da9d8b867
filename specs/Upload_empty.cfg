SPECIFICATION Spec
CONSTANTS N = 3 P = 2 T = 1 Cap = 1 PerFile = 0 Faults = 0 Empty = {2} EmptyEnds = TRUE Patient = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Whole
