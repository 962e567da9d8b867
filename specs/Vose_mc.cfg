SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Weights = {0, 1, 2, 3, 8}
INVARIANTS ExactInv RangeInv
CHECK_DEADLOCK FALSE
