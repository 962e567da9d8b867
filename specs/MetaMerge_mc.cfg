SPECIFICATION Spec
CONSTANTS
  Workers = 3
  PartsEach = 2
  Types = {0, 1, 2}
  MaxElems = 3
INVARIANT MergedInv
CHECK_DEADLOCK FALSE
