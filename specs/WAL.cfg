CONSTANTS MaxOps = 4
SPECIFICATION Spec
INVARIANTS ReplaysExactly Contiguous
CHECK_DEADLOCK FALSE
