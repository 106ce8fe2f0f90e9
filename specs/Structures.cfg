SPECIFICATION MCSpec
INVARIANT MCInv
CHECK_DEADLOCK FALSE
