SPECIFICATION TraceSpec
CONSTANT Base = 1024
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
