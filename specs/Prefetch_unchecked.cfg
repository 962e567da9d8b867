SPECIFICATION Spec
CONSTANTS
 N = 3
 Caps = {1, 2}
 Pars = {1, 2}
 Unchecked = TRUE
 Record = FALSE
INVARIANTS OnlyBatches
CHECK_DEADLOCK FALSE
