CONSTANTS Questions = 3 Lookups = 2 Parts = 3 Shared = FALSE Fixed = FALSE Arrival = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
