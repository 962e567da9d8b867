SPECIFICATION Spec
CONSTANTS
 MaxParts = 4
 Stores = {"a", "b"}
 LastStore = FALSE
 MetaDecides = FALSE
 Kinds = {"map", "nodes", "neighbors", "edges", "alias", "features", "lifetimes"}
INVARIANTS Complete NothingElse
PROPERTY Ends
CHECK_DEADLOCK FALSE
