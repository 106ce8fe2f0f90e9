SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CONSTANT Epoch = 0
CHECK_DEADLOCK FALSE
