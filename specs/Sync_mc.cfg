SPECIFICATION Spec
CONSTANTS
 Servers = {0, 1}
 Clients = {0, 1}
 Faulty = TRUE
 Record = FALSE
 ForgetFork = FALSE
INVARIANTS OnlyWhenAllUp Outlives NeverLost Clean MissingTold
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
