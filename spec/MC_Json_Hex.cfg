SPECIFICATION MCSpec
CONSTANTS
 Chars = {48,97,70,103,56,92,34}
 Length = 4
 Before <- QuoteU
 Behind <- QuoteMark
 Emit = TRUE
INVARIANTS EmitCase AcceptsJson ReadsBack
CHECK_DEADLOCK FALSE
