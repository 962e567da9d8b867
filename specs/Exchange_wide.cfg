SPECIFICATION Spec
CONSTANTS
 MaxHosts = 5
 MaxSlots = 1
 MaxParts = 5
 Late = FALSE
INVARIANTS OneServerPerHost NoGaps SameList AllParts NothingLeft
PROPERTY AllStart
CHECK_DEADLOCK FALSE
