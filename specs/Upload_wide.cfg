SPECIFICATION Spec
CONSTANTS N = 5 P = 2 T = 3 Cap = 2 PerFile = 2 Faults = 0 Empty = {2} EmptyEnds = FALSE Patient = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Whole Once Ordered Sized RefusedFair
PROPERTIES WriteReturns CloseReturns
