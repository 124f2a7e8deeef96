SPECIFICATION MCSpec
CONSTANTS
 Chars = {97, 98, 32}
 Length = 5
 TagLength = 4
 Mode = "suggest"
INVARIANTS EmitCase SuggestRight
CHECK_DEADLOCK FALSE
