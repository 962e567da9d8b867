SPECIFICATION Spec
CONSTANTS
 MaxN = 7
 MaxB = 3
 MaxW = 2
 MaxD = 3
 MaxE = 2
INVARIANTS Covers DropsTail NoMorePadding Full LengthTold Enough Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
