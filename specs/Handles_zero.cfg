SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Samplers = {1, 2}
 Servers = {1}
 Remote = {1, 2}
 Steps = 8
 Fresh = FALSE
 Keeps = TRUE
 Tidy = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
