SPECIFICATION Spec
CONSTANTS
  Records = 3
  Parts = 3
  Cap = 1
  AllParts = FALSE
  RoundRobin = FALSE
INVARIANTS OrderInv CompleteInv NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
