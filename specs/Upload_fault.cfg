SPECIFICATION Spec
CONSTANTS N = 5 P = 2 T = 2 Cap = 1 PerFile = 2 Faults = 1 Empty = {} EmptyEnds = FALSE Patient = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Whole Once Ordered Sized RefusedFair
PROPERTIES WriteReturns CloseReturns
