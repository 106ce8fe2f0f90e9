CONSTANTS MaxLen = 4
 Spacings = {1, 2, 3}
 Targets = {1, 3, 5}
SPECIFICATION Spec
INVARIANTS RoundTrip LookupsFind SplitsCover
CHECK_DEADLOCK FALSE
