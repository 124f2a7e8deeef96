SPECIFICATION MCSpec
CONSTANTS
 Chars = {48, 49, 57, 97, 1637}
 Length = 5
 TagLength = 0
 Mode = "one"
INVARIANTS NumbersRight
CHECK_DEADLOCK FALSE
