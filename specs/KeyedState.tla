------------------------------ MODULE KeyedState ------------------------------
(* The state a job keeps for its keys: per key a map from (namespace, entry   *)
(* key) to a value and a set of timers, partitioned over operators by key     *)
(* group, cut by the barriers of the source runners, and restored into any    *)
(* number of operators.  What the handler sees and what operators checkpoint  *)
(* is determined by this module alone; how operators batch, store, flush,     *)
(* compact and replay must not be visible.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES
  kg,      \* key -> key group
  ranges,  \* operator -> <<first, end>> of its key groups
  m,       \* key -> set of <<namespace, entry key, value>>
  tm,      \* pending timers, <<key, time>>
  sent,    \* events handed to operators in this deployment: <<id, key>>
  late,    \* those of them that follow the barrier of the checkpoint being taken
  handled, \* ids the handler has been given in this deployment
  ck,      \* the checkpoint being taken, 0: none
  acked,   \* operators that took it
  lim,     \* <<highest watermark in effect before, after>> the checkpoint is taken
  broken,  \* operators whose handler failed: they can't take the checkpoint any more
  snaps    \* checkpoint -> [m, tm]
ksvars == <<kg, ranges, m, tm, sent, late, handled, ck, acked, lim, broken, snaps>>

NoMap == [x \in {} |-> 0]
Keys == DOMAIN kg
Owns(o, k) == ranges[o][1] <= kg[k] /\ kg[k] < ranges[o][2]
Ids(s) == {e[1] : e \in s}

Apply(s, mut) == \* mut: <<namespace, entry key, value, deleted>>
  LET rest == {x \in s : ~(x[1] = mut[1] /\ x[2] = mut[2])}
  IN IF mut[4] THEN rest ELSE rest \cup {<<mut[1], mut[2], mut[3]>>}
ApplyAll(s, muts) == FoldLeft(Apply, s, muts)

KSInit == /\ kg = NoMap /\ ranges = <<>> /\ m = NoMap /\ tm = {} /\ sent = {} /\ late = {} /\ handled = {}
          /\ ck = 0 /\ acked = {} /\ lim = <<0, 0>> /\ broken = {} /\ snaps = NoMap
KSBegin(groups) == /\ kg' = groups /\ ranges' = <<>> /\ m' = [k \in DOMAIN groups |-> {}] /\ tm' = {} /\ sent' = {} /\ late' = {}
                   /\ handled' = {} /\ ck' = 0 /\ acked' = {} /\ lim' = <<0, 0>> /\ broken' = {} /\ snaps' = NoMap

\* New operators with the given key groups start from checkpoint c (0: from nothing).
KSDeploy(rs, c) ==
  /\ ranges' = rs
  /\ m' = IF c = 0 THEN [k \in Keys |-> {}] ELSE snaps[c].m
  /\ tm' = IF c = 0 THEN {} ELSE snaps[c].tm
  /\ sent' = {} /\ late' = {} /\ handled' = {} /\ ck' = 0 /\ acked' = {} /\ lim' = <<0, 0>> /\ broken' = {}
  /\ UNCHANGED <<kg, snaps>>

\* Source runners start to deliver more events, with the barrier of checkpoint c (0: none) after those in before.
KSSend(c, before, after, l1, l2) ==
  /\ sent' = sent \cup before \cup after /\ late' = after /\ ck' = c /\ acked' = {} /\ lim' = <<l1, l2>>
  /\ snaps' = IF c = 0 THEN snaps
              ELSE [x \in DOMAIN snaps \cup {c} |-> IF x = c THEN [m |-> [k \in Keys |-> {}], tm |-> {}] ELSE snaps[x]]
  /\ UNCHANGED <<kg, ranges, m, tm, handled, broken>>

\* A handler call failed: the deployment is going to be replaced.
KSBreak(o) == broken' = broken \cup {o} /\ UNCHANGED <<kg, ranges, m, tm, sent, late, handled, ck, acked, lim, snaps>>

\* Operator o is still to take the checkpoint.
Before(o) == ck > 0 /\ o \notin acked /\ o \notin broken
\* May operator o handle event id of key k now?
MayHandle(o, id, k) == /\ Owns(o, k) /\ <<id, k>> \in sent /\ id \notin handled
                       /\ ~(Before(o) /\ <<id, k>> \in late)
MayFire(o, k, t, wm) == Owns(o, k) /\ <<k, t>> \in tm /\ t <= wm
\* The watermark in effect at operator o is one the streams before (after) the barriers lead to.
MayTell(o, wm) == wm <= IF Before(o) THEN lim[1] ELSE lim[2]

\* The handler dealt with the events (ids, timers) at watermark wm and returned resp: <<key, mutations, timers>>.
KSHandled(ids, fired, resp, wm) ==
  /\ handled' = handled \cup ids
  /\ m' = FoldLeft(LAMBDA s, r : [s EXCEPT ![r[1]] = ApplyAll(@, r[2])], m, resp)
  /\ tm' = (tm \ fired) \cup UNION {{<<r[1], r[3][j]>> : j \in {i \in 1..Len(r[3]) : r[3][i] > wm}} : r \in ToSet(resp)}
  /\ UNCHANGED <<kg, ranges, sent, late, ck, acked, lim, broken, snaps>>

\* Operator o took checkpoint c: everything sent before the barriers is in, nothing after.
CutOk(o, c) == /\ c = ck /\ o \notin acked
               /\ \A e \in sent : Owns(o, e[2]) => (e[1] \in handled <=> e \notin late)
KSAck(o, c) ==
  /\ CutOk(o, c)
  /\ acked' = acked \cup {o}
  /\ snaps' = [snaps EXCEPT ![c] = [m |-> [k \in Keys |-> IF Owns(o, k) THEN m[k] ELSE @.m[k]],
                                    tm |-> @.tm \cup {p \in tm : Owns(o, p[1])}]]
  /\ UNCHANGED <<kg, ranges, m, tm, sent, late, handled, ck, lim, broken>>
KSComplete(c) == c = ck /\ acked = DOMAIN ranges /\ UNCHANGED ksvars
=============================================================================
