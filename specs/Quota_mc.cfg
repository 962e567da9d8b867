SPECIFICATION Spec
CONSTANTS
 Types = 2
 Parts = 2
 MaxSize = 2
 MaxWant = 8
INVARIANTS Possible InBounds Filled
PROPERTY Finishes
CHECK_DEADLOCK FALSE
