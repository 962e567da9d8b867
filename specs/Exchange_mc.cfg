SPECIFICATION Spec
CONSTANTS
 MaxHosts = 2
 MaxSlots = 2
 MaxParts = 5
 Late = FALSE
INVARIANTS OneServerPerHost NoGaps SameList AllParts NothingLeft Emit
PROPERTY AllStart
CHECK_DEADLOCK FALSE
