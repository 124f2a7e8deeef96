SPECIFICATION MCSpec
CONSTANTS
 N = 2
 Chars = {97, 98}
 Texts = 3
 Length = 3
 QLength = 3
 Emit = TRUE
INVARIANTS EmitCase PostExact SearchExact
CHECK_DEADLOCK FALSE
