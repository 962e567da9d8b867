SPECIFICATION Spec
CONSTANT MaxType = 4
INVARIANTS Sound Ascending Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
