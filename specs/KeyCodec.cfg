CONSTANTS Top = 1
 Alphabet = {0, 1}
 MaxKey = 2
 MaxNs = 3
 MaxEntry = 1
 LongLength = TRUE
SPECIFICATION KCSpec
INVARIANTS OwnOnly Distinct Together NoTimers
CHECK_DEADLOCK FALSE
