SPECIFICATION Spec
CONSTANTS Epoch = 0
 Keys = {1, 2, 3}
 GroupOf <- MCGroupOf
 Times = {1, 2, 3}
 SRs = {"a", "b"}
 Cap <- MCCap
 MaxSets = 5
 MaxCkpts = 1
INVARIANTS PrefixCached SameTimers FiresRight
PROPERTY Settles
CHECK_DEADLOCK FALSE
