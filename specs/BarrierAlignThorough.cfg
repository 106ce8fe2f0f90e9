CONSTANTS Senders = {s1, s2, s3}
 MaxLen = 2
 Barriers = 2
 BatchSize = 2
 Flush = TRUE
 Wait = TRUE
SPECIFICATION BASpec
INVARIANTS Cut Held
PROPERTY AllTaken
CHECK_DEADLOCK FALSE
