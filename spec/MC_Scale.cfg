SPECIFICATION MCSpec
CONSTANT Most = 36
INVARIANT ClosedForms
CHECK_DEADLOCK FALSE
