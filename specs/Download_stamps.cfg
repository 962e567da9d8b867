SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 Stores = {"a", "b"}
 LastStore = FALSE
 MetaDecides = FALSE
 Kinds = {"map", "nodes", "neighbors", "edges", "alias", "features"}
INVARIANTS Complete
CHECK_DEADLOCK FALSE
