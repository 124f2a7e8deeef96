SPECIFICATION MCSpec
CONSTANTS
 N = 1
 MaxRecords = 3
 Numbers <- NumberSet
 Emit = TRUE
INVARIANTS EmitCase FilesExact ValuesOnce
CHECK_DEADLOCK FALSE
