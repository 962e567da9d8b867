SPECIFICATION Spec
CONSTANTS
 Servers = {0, 1}
 MaxAttempts = 3
INVARIANTS NoPartialData ErrorOnlyWhenExhausted NothingLeftBehind
PROPERTY NeverHangs
CHECK_DEADLOCK FALSE
