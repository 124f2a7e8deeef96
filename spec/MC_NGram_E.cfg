SPECIFICATION MCSpec
CONSTANTS
 N = 3
 Chars = {97, 98}
 Texts = 4
 Length = 2
 QLength = 4
 Emit = TRUE
INVARIANTS EmitCase SearchExact
CHECK_DEADLOCK FALSE
