SPECIFICATION Spec
CONSTANTS N = 6 P = 2 T = 2 Cap = 2 PerFile = 1 Faults = 0 Empty = {2} EmptyEnds = FALSE Patient = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Whole Once Ordered Sized RefusedFair
PROPERTIES WriteReturns CloseReturns
