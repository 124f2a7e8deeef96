SPECIFICATION MCSpec
CONSTANTS
 Chars = {34,92,117,110,97,68,103,10}
 Length = 4
 Before <- QuoteMark
 Behind <- QuoteMark
 Emit = TRUE
INVARIANTS EmitCase AcceptsJson ReadsBack
CHECK_DEADLOCK FALSE
