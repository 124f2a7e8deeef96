SPECIFICATION MCSpec
CONSTANTS
 N = 2
 MaxRecords = 2
 Numbers <- NumberSet
 Emit = TRUE
INVARIANTS EmitCase FilesExact ValuesOnce
CHECK_DEADLOCK FALSE
