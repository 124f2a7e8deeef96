SPECIFICATION MCSpec
CONSTANTS
 N = 3
 Chars = {97, 98}
 Texts = 2
 Length = 4
 QLength = 3
 Emit = TRUE
INVARIANTS EmitCase TreeExact NoDeeper RootsSum PostExact CorrectionsExact
CHECK_DEADLOCK FALSE
