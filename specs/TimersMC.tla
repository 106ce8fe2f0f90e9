------------------------------ MODULE TimersMC ------------------------------
(* The timer registry over a database with a bounded cache of the earliest     *)
(* timers per key group: evictions, lazy reloads, firing, checkpoint, restore.   *)
EXTENDS Timers
CONSTANTS Keys, GroupOf, Times, SRs, Cap, MaxSets, MaxCkpts
VARIABLES db,     \* group -> timers in the database
          cache,  \* group -> cached timers
          all,    \* group -> the cache holds everything
          firing, \* an advance is under way: its watermark, or -1
          saved,  \* the checkpoint: <<db, pending>>
          sets, cks
ivars == <<db, cache, all, firing, saved, sets, cks>>
vars == <<pend, lo, hi, ivars>>
Groups == {GroupOf[k] : k \in Keys}
Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
First(S) == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y)
LastOf(S) == CHOOSE x \in S : \A y \in S : x = y \/ Before(y, x)
Full(S) == Cardinality(S) >= Cap
RECURSIVE Fill(_, _)
Fill(S, C) == IF S = {} THEN <<C, TRUE>>
              ELSE LET c == C \cup {First(S)} IN IF Full(c) THEN <<c, FALSE>> ELSE Fill(S \ {First(S)}, c)
RECURSIVE Evict(_)
Evict(C) == IF C # {} /\ Full(C) THEN Evict(C \ {LastOf(C)}) ELSE C
Loaded(g) == IF cache[g] # {} \/ all[g] THEN <<cache[g], all[g]>> ELSE Fill(db[g], {})
\* Peek loads
Head(g) == Loaded(g)[1]
LoadAll == /\ cache' = [g \in Groups |-> Loaded(g)[1]] /\ all' = [g \in Groups |-> Loaded(g)[2]]
Init == /\ pend = {} /\ lo = [s \in SRs |-> Epoch] /\ hi = [s \in SRs |-> Epoch]
        /\ db = [g \in Groups |-> {}] /\ cache = [g \in Groups |-> {}] /\ all = [g \in Groups |-> FALSE]
        /\ firing = -1 /\ saved = <<[g \in Groups |-> {}], {}>> /\ sets = 0 /\ cks = 0
Set(k, t) ==
  /\ sets < MaxSets /\ sets' = sets + 1
  /\ SetAt(k, t, Least(hi))
  /\ IF t <= Least(hi) THEN UNCHANGED <<db, cache, all>>
     ELSE LET g == GroupOf[k] x == <<k, t>> c == Loaded(g)[1] a == Loaded(g)[2]
              behind == ~a /\ c # {} /\ Before(LastOf(c), x)
              full == IF behind THEN c ELSE c \cup {x}
              rest == Evict(full) IN
          /\ cache' = [cache EXCEPT ![g] = rest]
          /\ all' = [all EXCEPT ![g] = a /\ rest = full]
          /\ db' = [db EXCEPT ![g] = @ \cup {x}]
  /\ UNCHANGED <<firing, saved, cks>>
Report(s, t) == /\ firing = -1 /\ t >= hi[s] /\ Reported(s, t)
                /\ firing' = Least([hi EXCEPT ![s] = t]) /\ UNCHANGED <<db, cache, all, saved, sets, cks>>
\* the earliest group by the time of its first timer; ties in any order
Due == {g \in Groups : Head(g) # {} /\ First(Head(g))[2] <= firing
         /\ \A o \in Groups : Head(o) # {} => First(Head(g))[2] <= First(Head(o))[2]}
FireOne == /\ firing >= 0
           /\ \E g \in Due : LET x == First(Head(g)) c == Head(g) \ {x} IN
                /\ cache' = [cache EXCEPT ![g] = c]
                /\ all' = [all EXCEPT ![g] = Loaded(g)[2]]
                /\ db' = [db EXCEPT ![g] = @ \ {x}]
                /\ pend' = pend \ {x} /\ UNCHANGED <<lo, hi>>
           /\ UNCHANGED <<firing, saved, sets, cks>>
Idle == /\ firing >= 0 /\ Due = {} /\ firing' = -1 /\ UNCHANGED <<pend, lo, hi, db, cache, all, saved, sets, cks>>
Checkpoint == /\ firing = -1 /\ cks < MaxCkpts /\ cks' = cks + 1 /\ saved' = <<db, pend>>
              /\ UNCHANGED <<pend, lo, hi, db, cache, all, firing, sets>>
Restore == /\ cks > 0 /\ cks < 100 /\ cks' = cks + 100
           /\ Deployed(SRs, saved[2]) /\ db' = saved[1]
           /\ cache' = [g \in Groups |-> {}] /\ all' = [g \in Groups |-> FALSE] /\ firing' = -1
           /\ UNCHANGED <<saved, sets>>
Next == (\E k \in Keys, t \in Times : Set(k, t)) \/ (\E s \in SRs, t \in Times : Report(s, t))
        \/ FireOne \/ Idle \/ Checkpoint \/ Restore
Spec == Init /\ [][Next]_vars /\ WF_vars(FireOne \/ Idle)
MCGroupOf == [k \in Keys |-> IF k = 3 THEN 2 ELSE 1]
MCCap == 2
\* ---- what has to hold
PrefixCached == \A g \in Groups :
  /\ cache[g] \subseteq db[g]
  /\ all[g] => cache[g] = db[g]
  /\ \A x \in cache[g], y \in db[g] \ cache[g] : Before(x, y)
SameTimers == pend = UNION {db[g] : g \in Groups}
\* whatever the implementation fires next is allowed, and it only stops when nothing is due
FiresRight == firing >= 0 => /\ \A g \in Due : LET x == First(Head(g)) IN MayFire(x[1], x[2])
                             /\ Due = {} => NoneDue
Settles == (firing >= 0) ~> (firing = -1)
=============================================================================
