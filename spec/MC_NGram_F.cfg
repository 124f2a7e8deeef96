SPECIFICATION MCSpec
CONSTANTS
 N = 2
 Chars = {0, 97}
 Texts = 3
 Length = 2
 QLength = 2
 Emit = TRUE
INVARIANTS EmitCase TreeExact PostExact SearchExact
CHECK_DEADLOCK FALSE
