SPECIFICATION MCSpec
CONSTANTS
 Chars = {47,42,10,35,49,32}
 Length = 5
 Before <- Nothing
 Behind <- Nothing
 Emit = TRUE
INVARIANTS EmitCase AcceptsJson ReadsBack
CHECK_DEADLOCK FALSE
