SPECIFICATION GSpec
INVARIANT Written
CHECK_DEADLOCK FALSE
