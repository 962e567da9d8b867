SPECIFICATION Spec
CONSTANTS
  Records = 4
  Parts = 2
  Cap = 100
  AllParts = TRUE
  RoundRobin = TRUE
INVARIANTS OrderInv CompleteInv NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
