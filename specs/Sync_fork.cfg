SPECIFICATION Spec
CONSTANTS
 Servers = {0, 1}
 Clients = {0, 1}
 Faulty = TRUE
 Record = FALSE
 ForgetFork = TRUE
INVARIANTS Outlives

CHECK_DEADLOCK FALSE
