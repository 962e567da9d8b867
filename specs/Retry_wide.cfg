SPECIFICATION Spec
CONSTANTS
 Servers = {0, 1, 2}
 MaxAttempts = 2
INVARIANTS NoPartialData ErrorOnlyWhenExhausted NothingLeftBehind
PROPERTY NeverHangs
CHECK_DEADLOCK FALSE
