CONSTANTS N = 5
 Max = 2
 Buf = 2
 Atomic = TRUE
SPECIFICATION BSpec
INVARIANTS InOrder Conserved
PROPERTY AllOut
CHECK_DEADLOCK FALSE
