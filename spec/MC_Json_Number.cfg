SPECIFICATION MCSpec
CONSTANTS
 Chars = {45,48,49,46,101,43,32}
 Length = 5
 Before <- Nothing
 Behind <- Nothing
 Emit = TRUE
INVARIANTS EmitCase AcceptsJson ReadsBack
CHECK_DEADLOCK FALSE
