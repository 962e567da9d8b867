INIT Init
NEXT Next
CONSTANTS
 Servers = {0, 1}
 Clients = {0, 1}
 Faulty = TRUE
 Record = TRUE
 ForgetFork = FALSE
INVARIANTS Emit

CHECK_DEADLOCK FALSE
