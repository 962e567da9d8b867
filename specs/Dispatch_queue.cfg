SPECIFICATION Spec
CONSTANTS
  Records = 4
  Parts = 2
  Cap = 2
  AllParts = FALSE
  RoundRobin = FALSE
INVARIANTS OrderInv CompleteInv NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
