SPECIFICATION MCSpec
CONSTANTS
 Depth = 6
 Emit = TRUE
INVARIANTS OutputIsWhole
PROPERTIES FailureKeeps OnlyRunsMake
ACTION_CONSTRAINT EmitScript
VIEW StateOnly
CHECK_DEADLOCK FALSE
