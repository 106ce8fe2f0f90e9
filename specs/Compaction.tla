------------------------------ MODULE Compaction ------------------------------
(* Levelled tables under compaction (C18).  Level 1 of the list is L0 (tables   *)
(* may overlap), deeper levels are sorted runs of tables.  A compaction step is *)
(* computed from one level list and applied to a later one: flushes may add     *)
(* tables to L0 in between.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, NLevels, MaxOps
VARIABLES levels, want, seq, job
vars == <<levels, want, seq, job>>
\* a table is a function from keys to <<seq, value>>, value 0 a tombstone
Newest(t, u) == [k \in DOMAIN t \cup DOMAIN u |->
     IF k \notin DOMAIN u THEN t[k] ELSE IF k \notin DOMAIN t THEN u[k]
     ELSE IF t[k][1] > u[k][1] THEN t[k] ELSE u[k]]
RECURSIVE Merge(_)
Merge(S) == IF S = {} THEN [k \in {} |-> <<0, 0>>] ELSE LET t == CHOOSE x \in S : TRUE IN Newest(t, Merge(S \ {t}))
Restrict(t, S) == [k \in DOMAIN t \cap S |-> t[k]]
Splits(t) == IF DOMAIN t = {} THEN {{}}
             ELSE {{t}} \cup {{Restrict(t, {k \in Keys : k <= c}), Restrict(t, {k \in Keys : k > c})} :
                               c \in {c \in DOMAIN t : \E k \in DOMAIN t : k > c}}
NoJob == [to |-> 0, take |-> {}, put |-> {}]
Init == levels = [i \in 1..NLevels |-> {}] /\ want = [k \in Keys |-> 0] /\ seq = 0 /\ job = NoJob
\* a memtable with one or two writes is flushed
Flush == \E S \in SUBSET Keys : \E v \in [S -> {0, 1}] :
   /\ S # {} /\ Cardinality(S) <= 2 /\ seq + Cardinality(S) <= MaxOps
   /\ LET rank(k) == Cardinality({x \in S : x <= k})
          t == [k \in S |-> <<seq + rank(k), IF v[k] = 0 THEN 0 ELSE seq + rank(k)>>] IN
      /\ levels' = [levels EXCEPT ![1] = @ \cup {t}]
      /\ want' = [k \in Keys |-> IF k \in S THEN t[k][2] ELSE want[k]]
   /\ seq' = seq + Cardinality(S) /\ UNCHANGED job
Begin(to, T) == job = NoJob /\ T # {} /\ \E P \in Splits(Merge(T)) : job' = [to |-> to, take |-> T, put |-> P]
\* all of L0, or some level and the level below it, merge into the lower one
Minor == \E i \in 1..NLevels-1 : levels[i] # {} /\ Begin(i + 1, levels[i] \cup levels[i+1]) /\ UNCHANGED <<levels, want, seq>>
\* everything below level i, and of level i some tables (L0: the oldest), merge into the base
MaxSeq(t) == CHOOSE s \in {t[k][1] : k \in DOMAIN t} : \A k \in DOMAIN t : s >= t[k][1]
Major == \E i \in 1..NLevels-1 : \E T \in SUBSET levels[i] :
   /\ T # {} /\ (i = 1 => \A t \in T, u \in levels[i] \ T : MaxSeq(t) < MaxSeq(u))
   /\ Begin(NLevels, T \cup UNION {levels[j] : j \in i+1..NLevels})
   /\ UNCHANGED <<levels, want, seq>>
Apply == /\ job # NoJob
         /\ levels' = [i \in 1..NLevels |-> (levels[i] \ job.take) \cup (IF i = job.to THEN job.put ELSE {})]
         /\ job' = NoJob /\ UNCHANGED <<want, seq>>
Next == Flush \/ Minor \/ Major \/ Apply
Spec == Init /\ [][Next]_vars
\* ---- properties
All == UNION {levels[i] : i \in 1..NLevels}
ValueUnchanged == \A k \in Keys : LET m == Merge(All) IN (IF k \in DOMAIN m THEN m[k][2] ELSE 0) = want[k]
Disjoint(t, u) == (\A a \in DOMAIN t, b \in DOMAIN u : a < b) \/ (\A a \in DOMAIN t, b \in DOMAIN u : a > b)
SortedBelowL0 == \A i \in 2..NLevels : \A t, u \in levels[i] : t # u => Disjoint(t, u)
NewerAbove == \A i, j \in 1..NLevels : i < j =>
   \A t \in levels[i], u \in levels[j] : \A k \in DOMAIN t \cap DOMAIN u : t[k][1] > u[k][1]
\* a lookup through the levels, top first, finds the newest
TopFirst(k) == LET I == {i \in 1..NLevels : \E t \in levels[i] : k \in DOMAIN t} IN
   IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y IN Merge({t \in levels[i] : k \in DOMAIN t})[k][2]
LookupsAgree == \A k \in Keys : TopFirst(k) = want[k]
=============================================================================
