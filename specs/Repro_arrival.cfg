CONSTANTS Questions = 2 Lookups = 2 Parts = 3 Shared = FALSE Fixed = FALSE Arrival = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
