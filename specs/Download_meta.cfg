SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 Stores = {"a", "b"}
 LastStore = FALSE
 MetaDecides = TRUE
 Kinds = {"map", "nodes", "neighbors", "edges", "alias", "features", "lifetimes"}
INVARIANTS Complete
CHECK_DEADLOCK FALSE
