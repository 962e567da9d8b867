SPECIFICATION Spec
CONSTANTS
 MaxN = 12
 MaxB = 4
 MaxW = 3
 MaxD = 3
 MaxE = 2
INVARIANTS Covers DropsTail NoMorePadding Full LengthTold Enough
PROPERTY Finishes
CHECK_DEADLOCK FALSE
