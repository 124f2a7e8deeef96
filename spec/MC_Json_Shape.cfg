SPECIFICATION MCSpec
CONSTANTS
 Chars = {123,125,91,93,34,44,58,49}
 Length = 4
 Before <- Nothing
 Behind <- Nothing
 Emit = TRUE
INVARIANTS EmitCase AcceptsJson ReadsBack
CHECK_DEADLOCK FALSE
