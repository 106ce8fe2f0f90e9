SPECIFICATION Spec
CONSTANTS Splits = {1, 2}
 PerSplit = 2
 KeyBatch = 2
 OpBatch = 2
 Ops = {1, 2}
 MaxCks = 1
 MaxWms = 1
 TimeOf <- MCTimeOf
INVARIANTS Once InOrder Barriers NoneBehind Marks MarksBehind
PROPERTY AllOut
CHECK_DEADLOCK FALSE
