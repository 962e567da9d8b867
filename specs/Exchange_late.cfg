SPECIFICATION Spec
CONSTANTS
 MaxHosts = 2
 MaxSlots = 2
 MaxParts = 4
 Late = TRUE

PROPERTY AllStart
CHECK_DEADLOCK FALSE
