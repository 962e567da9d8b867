SPECIFICATION Spec
CONSTANTS
 Groups = 3
 MaxSize = 2
 MaxK = 3
 Kinds = {"slots", "stream", "merge"}
 Forget = TRUE
INVARIANTS Right
CHECK_DEADLOCK FALSE
