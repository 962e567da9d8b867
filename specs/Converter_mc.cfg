SPECIFICATION Spec
CONSTANTS
  Ids = {"1", "2"}
  NodeTypes = {0, 1}
  EdgeTypes = {0, 1}
  FeatureLists <- Lists
  MaxRecords = 3
  Temporal = FALSE
  NodeTimes <- Static
  EdgeTimes <- Static
INVARIANT ReadBackInv
CHECK_DEADLOCK FALSE
