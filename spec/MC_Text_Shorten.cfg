SPECIFICATION MCSpec
CONSTANTS
 Chars = {97, 32, 248, 128125}
 Length = 5
 TagLength = 0
 Mode = "one"
INVARIANTS ShortensRight
CHECK_DEADLOCK FALSE
