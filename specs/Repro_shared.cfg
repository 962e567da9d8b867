CONSTANTS Questions = 2 Lookups = 2 Parts = 3 Shared = TRUE Fixed = FALSE Arrival = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
