SPECIFICATION TraceSpec
VIEW OnlyLine
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
