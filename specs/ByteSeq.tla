------------------------------ MODULE ByteSeq ------------------------------
(* Byte strings as sequences of integers, and listings of ordered sets.     *)
EXTENDS Integers, Sequences, FiniteSets

LexLess(a, b) ==
  \E n \in 0..Len(a) :
     /\ n < Len(b)
     /\ \A i \in 1..n : a[i] = b[i]
     /\ IF n = Len(a) THEN TRUE ELSE a[n+1] < b[n+1]

HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

(* r lists the set S of byte strings, each once, in ascending order          *)
ListsKeys(r, S) ==
  /\ Len(r) = Cardinality(S)
  /\ \A i \in 1..Len(r) : r[i] \in S
  /\ \A i \in 1..Len(r)-1 : LexLess(r[i], r[i+1])

(* r is a sequence of <<key, value>> pairs listing the map m restricted to S *)
ListsMap(r, m, S) ==
  /\ Len(r) = Cardinality(S)
  /\ \A i \in 1..Len(r) : r[i][1] \in S /\ m[r[i][1]] = r[i][2]
  /\ \A i \in 1..Len(r)-1 : LexLess(r[i][1], r[i+1][1])

(* the first Len(r) elements of such a listing                                *)
ListsMapPrefix(r, m, S) ==
  /\ \A i \in 1..Len(r) : r[i][1] \in S /\ m[r[i][1]] = r[i][2]
  /\ \A i \in 1..Len(r)-1 : LexLess(r[i][1], r[i+1][1])
  /\ r # <<>> => \A k \in S : LexLess(k, r[Len(r)][1]) => \E i \in 1..Len(r) : r[i][1] = k

EmptyMap == [x \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Under(m, p) == {k \in DOMAIN m : HasPrefix(k, p)}
Lookup(m, k, absent) == IF k \in DOMAIN m THEN m[k] ELSE absent
=============================================================================
