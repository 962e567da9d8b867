SPECIFICATION Spec
CONSTANTS N = 4 P = 1 T = 2 Cap = 1 PerFile = 0 Faults = 1 Empty = {} EmptyEnds = FALSE Patient = TRUE
CHECK_DEADLOCK FALSE
PROPERTIES CloseReturns
