SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 Stores = {"a", "b"}
 LastStore = TRUE
 MetaDecides = FALSE
 Kinds = {"map", "nodes", "neighbors", "edges", "alias", "features", "lifetimes"}
INVARIANTS Complete
CHECK_DEADLOCK FALSE
