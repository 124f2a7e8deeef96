SPECIFICATION MCSpec
CONSTANTS
 N = 3
 Chars = {0, 97}
 Texts = 1
 Length = 5
 QLength = 3
 Emit = TRUE
INVARIANTS EmitCase TreeExact NoDeeper RootsSum PostExact CorrectionsExact
CHECK_DEADLOCK FALSE
