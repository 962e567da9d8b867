SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 Stores = {"a", "b"}
 LastStore = FALSE
 MetaDecides = FALSE
 Kinds = {"map", "nodes", "neighbors", "edges", "alias", "features", "lifetimes"}
INVARIANTS Complete NothingElse Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
