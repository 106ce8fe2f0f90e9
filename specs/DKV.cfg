CONSTANTS Keys = {1, 2}
 MaxOps = 4
 MemCap = 2
 MaxCk = 1
SPECIFICATION Spec
INVARIANTS ReadsLatest ScansLatest RestoresExactly NewerAbove LogCovers
CHECK_DEADLOCK FALSE
