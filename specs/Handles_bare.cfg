SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Samplers = {1, 2}
 Servers = {1}
 Remote = {1}
 Steps = 6
 Fresh = TRUE
 Keeps = FALSE
 Tidy = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
