----------------------------- MODULE TableFormat -----------------------------
(* The on-disk form of a key-ordered run (C17): byte encoding of entries,      *)
(* sparse index over sampled offsets, point lookup by binary search plus       *)
(* bounded scan, prefix scan, and splitting a run into size-bounded tables.    *)
(* Every run over a small key set is enumerated as an initial state.           *)
EXTENDS ByteSeq
CONSTANTS MaxLen, Spacings, Targets
KeySet == {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1>>, <<1, 0>>}
Vals == {<<>>, <<0>>}
VARIABLES run, spacing, target
vars == <<run, spacing, target>>

Puts(k, s) == [key : {k}, seq : {s}, del : {FALSE}, val : Vals]
Tomb(k, s) == [key |-> k, seq |-> s, del |-> TRUE, val |-> <<>>]
SortedRuns(n) == {f \in [1..n -> KeySet] : \A i \in 1..n-1 : LexLess(f[i], f[i+1])}
Init == /\ \E n \in 0..MaxLen : \E f \in SortedRuns(n) : \E D \in SUBSET (1..n) : \E w \in [1..n -> Vals] :
             run = [i \in 1..n |-> IF i \in D THEN Tomb(f[i], i) ELSE [key |-> f[i], seq |-> i, del |-> FALSE, val |-> w[i]]]
        /\ spacing \in Spacings /\ target \in Targets
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- encoding
Var(b) == <<Len(b)>> \o b
Enc(e) == Var(e.key) \o <<e.seq>> \o <<IF e.del THEN 1 ELSE 0>> \o (IF e.del THEN <<>> ELSE Var(e.val))
RECURSIVE EncAll(_)
EncAll(r) == IF r = <<>> THEN <<>> ELSE Enc(Head(r)) \o EncAll(Tail(r))
RECURSIVE OffsetOf(_, _)
OffsetOf(r, i) == IF i = 1 THEN 1 ELSE OffsetOf(r, i - 1) + Len(Enc(r[i - 1]))
\* ---- decoding at an offset: entry and the next offset
DecKey(b, o) == SubSeq(b, o + 1, o + b[o])
Dec(b, o) ==
  LET k == DecKey(b, o) o1 == o + 1 + Len(k) s == b[o1] d == b[o1 + 1] = 1
      v == IF d THEN <<>> ELSE SubSeq(b, o1 + 3, o1 + 2 + b[o1 + 2]) IN
  [e |-> [key |-> k, seq |-> s, del |-> d, val |-> v], next |-> IF d THEN o1 + 2 ELSE o1 + 3 + Len(v)]
RECURSIVE DecAll(_, _)
DecAll(b, o) == IF o > Len(b) THEN <<>> ELSE LET d == Dec(b, o) IN <<d.e>> \o DecAll(b, d.next)
\* ---- sparse index and lookup
Index == LET S == {i \in 1..Len(run) : (i - 1) % spacing = 0} IN
         [j \in 1..Cardinality(S) |-> OffsetOf(run, (j - 1) * spacing + 1)]
RECURSIVE ScanFor(_, _, _, _)
ScanFor(b, o, end, k) == IF o >= end THEN <<>>
                         ELSE LET d == Dec(b, o) IN IF d.e.key = k THEN <<d.e>> ELSE ScanFor(b, d.next, end, k)
Lookup1(k) ==
  LET b == EncAll(run) le == {j \in 1..Len(Index) : ~LexLess(k, DecKey(b, Index[j]))} IN
  IF le = {} THEN <<>>
  ELSE LET j == CHOOSE x \in le : \A y \in le : y <= x IN
       ScanFor(b, Index[j], IF j = Len(Index) THEN Len(b) + 1 ELSE Index[j + 1], k)
RoundTrip == DecAll(EncAll(run), 1) = run
LookupsFind == \A k \in KeySet :
   LET S == {i \in 1..Len(run) : run[i].key = k} IN
   Lookup1(k) = IF S = {} THEN <<>> ELSE <<run[CHOOSE i \in S : TRUE]>>
\* ---- splitting at a target size with look-ahead to 1.5 times the target
Size(e) == 1 + Len(e.key) + Len(e.val)
RECURSIVE Bytes(_)
Bytes(r) == IF r = <<>> THEN 0 ELSE Size(Head(r)) + Bytes(Tail(r))
RECURSIVE Split(_)
Split(r) ==
  IF r = <<>> THEN <<>>
  ELSE IF Bytes(r) < target THEN <<r>>
  ELSE LET cut == CHOOSE n \in 1..Len(r) : Bytes(SubSeq(r, 1, n)) >= target /\ \A m \in 1..n-1 : Bytes(SubSeq(r, 1, m)) < target IN
       IF 2 * Bytes(r) < 3 * target THEN <<r>>
       ELSE <<SubSeq(r, 1, cut)>> \o Split(SubSeq(r, cut + 1, Len(r)))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
SplitsCover == LET s == Split(run) IN
   /\ Flat(s) = run
   /\ \A i \in 1..Len(s) : s[i] # <<>>
   /\ \A i \in 1..Len(s)-1 : LexLess(s[i][Len(s[i])].key, s[i+1][1].key)
=============================================================================
