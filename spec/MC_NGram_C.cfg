SPECIFICATION MCSpec
CONSTANTS
 N = 6
 Chars = {97, 98}
 Texts = 1
 Length = 7
 QLength = 3
 Emit = TRUE
INVARIANTS EmitCase CorrectionsExact
CHECK_DEADLOCK FALSE
