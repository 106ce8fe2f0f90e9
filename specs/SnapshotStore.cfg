SPECIFICATION Spec
CONSTANTS
  Nodes = {a, b}
  MaxId = 3
  MaxCrash = 1
  MaxAsm = 2
  Chain = TRUE
  Highest = TRUE
  Dedupe = TRUE
  Atomic = TRUE
  CheckId = TRUE
  CheckNode = TRUE
  NotifyNow = TRUE
  Clear = TRUE
  Await = TRUE
  PastSp = TRUE
INVARIANTS Whole Own Monotone SpWhole TheyHaveIt QuietNewest
PROPERTIES IdsGrow FreshId KeepNewest NeverEmpty LoadNewest CurrentGrows InTheAssembly
CHECK_DEADLOCK FALSE
