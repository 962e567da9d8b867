INIT Init
NEXT Next
CONSTANTS
 N = 2
 Caps = {1, 2}
 Pars = {1, 2}
 Unchecked = FALSE
 Record = TRUE
INVARIANTS Emit

CHECK_DEADLOCK FALSE
