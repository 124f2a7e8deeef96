SPECIFICATION MCSpec
CONSTANTS
 N = 3
 Chars = {97, 98, 99}
 Texts = 1
 Length = 6
 QLength = 3
 Emit = TRUE
INVARIANTS EmitCase TreeExact NoDeeper RootsSum CorrectionsExact
CHECK_DEADLOCK FALSE
