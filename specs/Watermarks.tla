----------------------------- MODULE Watermarks -----------------------------
(* The watermark of a source runner: behind the largest forwarded timestamp,  *)
(* close to it, never going back.  Times are <<seconds, nanoseconds>>.         *)
EXTENDS Integers, Sequences
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Later(a, b) == IF Leq(a, b) THEN b ELSE a
Slack == 1000 \* nanoseconds a watermark may stay behind
\* w is below m by at most Slack
Follows(w, m) == /\ Less(w, m)
                 /\ IF w[1] = m[1] THEN m[2] - w[2] <= Slack
                    ELSE w[1] = m[1] - 1 /\ m[2] + 1000000000 - w[2] <= Slack
=============================================================================
