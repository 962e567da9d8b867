SPECIFICATION Spec
CONSTANTS
 Groups = 3
 MaxSize = 3
 MaxK = 3
 Kinds = {"slots", "stream", "merge"}
 Forget = FALSE
INVARIANTS Whole Right Emit
CHECK_DEADLOCK FALSE
