SPECIFICATION Spec
CONSTANTS Clients = {1, 2, 3}
 Samplers = {1, 2, 3}
 Servers = {1, 2}
 Remote = {1, 2}
 Steps = 24
 Fresh = TRUE
 Keeps = TRUE
 Tidy = FALSE
INVARIANT Right
INVARIANT Emit
CHECK_DEADLOCK FALSE
