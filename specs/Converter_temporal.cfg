SPECIFICATION Spec
CONSTANTS
  Ids = {"1", "2"}
  NodeTypes = {0, 1}
  EdgeTypes = {0, 1}
  FeatureLists <- Bare
  MaxRecords = 3
  Temporal = TRUE
  NodeTimes <- NTimes
  EdgeTimes <- ETimes
INVARIANT ReadBackInv
CHECK_DEADLOCK FALSE
