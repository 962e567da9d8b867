SPECIFICATION Spec
CONSTANTS
 Nodes = {0, 1, 2}
 Steps = 4
INVARIANTS GoesOn FollowsEdges Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
