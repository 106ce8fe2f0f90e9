CONSTANTS MaxVal = 1
 Keys = {0, 1}
 Groups = 2
 MaxOps = 2
 MaxSeq = 2
 MaxDeploys = 2
 Filter = TRUE
 Raise = TRUE
 KeepTombs = TRUE
SPECIFICATION RSpec
INVARIANTS Right Exclusive Unique
CHECK_DEADLOCK FALSE
