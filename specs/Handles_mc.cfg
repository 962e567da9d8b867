SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Samplers = {1, 2}
 Servers = {1}
 Remote = {1}
 Steps = 7
 Fresh = TRUE
 Keeps = TRUE
 Tidy = FALSE
INVARIANT Right
INVARIANT NotBoth
CHECK_DEADLOCK FALSE
