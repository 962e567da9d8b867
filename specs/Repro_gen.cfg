CONSTANTS Questions = 8 Lookups = 4 Parts = 3 Shared = FALSE Fixed = TRUE Arrival = FALSE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
