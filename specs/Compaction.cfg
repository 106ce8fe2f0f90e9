CONSTANTS Keys = {1, 2, 3}
 NLevels = 3
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS ValueUnchanged SortedBelowL0 NewerAbove LookupsAgree
CHECK_DEADLOCK FALSE
