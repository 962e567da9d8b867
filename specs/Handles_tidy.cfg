SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Samplers = {1, 2}
 Servers = {1}
 Remote = {1, 2}
 Steps = 6
 Fresh = TRUE
 Keeps = TRUE
 Tidy = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
