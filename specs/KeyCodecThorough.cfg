CONSTANTS Top = 2
 Alphabet = {0, 1, 2}
 MaxKey = 2
 MaxNs = 3
 MaxEntry = 1
 LongLength = TRUE
SPECIFICATION KCSpec
INVARIANTS OwnOnly Distinct Together NoTimers
CHECK_DEADLOCK FALSE
