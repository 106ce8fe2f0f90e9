------------------------------- MODULE Timers -------------------------------
(* Event-time timers and watermarks of one operator: what is pending, which   *)
(* watermark is in effect, what may fire.  Used by TimersMC (the registry's    *)
(* bounded per-group caches refine this) and TimersTrace (the real code does).  *)
EXTENDS Integers, FiniteSets
CONSTANT Epoch
VARIABLES pend, \* timers <<key, time>> that still have to fire
          lo,   \* upstream -> latest watermark the operator has dealt with
          hi    \* upstream -> latest watermark the operator may have dealt with
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Least(m) == MinOf({m[s] : s \in DOMAIN m})
Deployed(srs, P) == pend' = P /\ lo' = [s \in srs |-> Epoch] /\ hi' = [s \in srs |-> Epoch]
Reporting(s, t) == hi' = [hi EXCEPT ![s] = t] /\ UNCHANGED <<pend, lo>>
Reported(s, t) == lo' = [lo EXCEPT ![s] = t] /\ hi' = [hi EXCEPT ![s] = t] /\ UNCHANGED pend
\* w: the watermark in effect when the timer is set
SetAt(k, t, w) == pend' = (IF t > w THEN pend \cup {<<k, t>>} ELSE pend) /\ UNCHANGED <<lo, hi>>
MayFire(k, t) == <<k, t>> \in pend /\ t <= Least(hi) /\ \A p \in pend : t <= p[2]
Fired(k, t) == MayFire(k, t) /\ pend' = pend \ {<<k, t>>} /\ UNCHANGED <<lo, hi>>
NoneDue == \A p \in pend : p[2] > Least(lo)
Told(w) == Least(lo) <= w /\ w <= Least(hi)
=============================================================================
