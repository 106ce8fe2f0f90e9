----------------------------- MODULE Structures -----------------------------
(* Reference semantics of reduction's in-memory ordered structures (C19).    *)
(* One abstract object is alive at a time; `kind` says which.                *)
(*   zip    ordered map: byte string -> value                                *)
(*   cache  sorted set of byte strings with a byte budget                    *)
(*   heap   set of items, item -> priority                                   *)
(*   ppq    the same, items live in partitions                               *)
(*   set    registers holding insertion-ordered sets (sequences)             *)
(*   smap   ordered map: integer -> value                                    *)
(* Each operation carries the result the implementation gave.                *)
EXTENDS Integers, Sequences, FiniteSets, ByteSeq

VARIABLES kind, m, max
svars == <<kind, m, max>>

Absent == -1
SInit == kind = "none" /\ m = EmptyMap /\ max = 0
New(k, mx) == kind' = k /\ m' = EmptyMap /\ max' = mx
Keep == UNCHANGED svars

\* ---- zip tree ------------------------------------------------------------
ZipPut(k, v, old) ==
  /\ old = Lookup(m, k, Absent)              \* Put returns what it replaced
  /\ m' = Put(m, k, v) /\ UNCHANGED <<kind, max>>
ZipObserve(gets, scans) ==                    \* gets: <<key, value>>; scans: <<prefix, limit, listing>>
  /\ \A i \in 1..Len(gets) : gets[i][2] = Lookup(m, gets[i][1], Absent)
  /\ \A i \in 1..Len(scans) :
       LET p == scans[i][1] lim == scans[i][2] out == scans[i][3] IN
       IF lim < 0 THEN ListsMap(out, m, Under(m, p))
       ELSE /\ ListsMapPrefix(out, m, Under(m, p))
            /\ Len(out) = IF lim < Cardinality(Under(m, p)) THEN lim ELSE Cardinality(Under(m, p))
  /\ Keep

\* ---- sorted cache --------------------------------------------------------
Elems == DOMAIN m
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(x) + SumLen(S \ {x})
IsMinKey(x) == x \in Elems /\ \A y \in Elems : y = x \/ LexLess(x, y)
IsMaxKey(x) == x \in Elems /\ \A y \in Elems : y = x \/ LexLess(y, x)
CachePush(x) == m' = Put(m, x, 0) /\ UNCHANGED <<kind, max>>
CachePop(ok, x) ==
  /\ ok = (Elems # {}) /\ (ok => IsMinKey(x))
  /\ m' = (IF ok THEN Del(m, x) ELSE m) /\ UNCHANGED <<kind, max>>
CachePopLast(ok, x) ==
  /\ ok = (Elems # {}) /\ (ok => IsMaxKey(x))
  /\ m' = (IF ok THEN Del(m, x) ELSE m) /\ UNCHANGED <<kind, max>>
CacheDelete(x) == m' = Del(m, x) /\ UNCHANGED <<kind, max>>
CacheObserve(peekOk, peek, empty, full) ==
  /\ peekOk = (Elems # {}) /\ (peekOk => IsMinKey(peek))
  /\ empty = (Elems = {})
  /\ full = (SumLen(Elems) >= max)
  /\ Keep

\* ---- heap and partitioned priority queue (items are ids, m[id] = priority)
IsMinItem(id) == id \in Elems /\ \A j \in Elems : m[id] <= m[j]
HeapPush(id, p) == id \notin Elems /\ m' = Put(m, id, p) /\ UNCHANGED <<kind, max>>
HeapPop(id) ==                                \* id 0: the heap said it is empty
  /\ IF id = 0 THEN Elems = {} /\ m' = m ELSE IsMinItem(id) /\ m' = Del(m, id)
  /\ UNCHANGED <<kind, max>>
HeapFix(id, p) == id \in Elems /\ m' = Put(m, id, p) /\ UNCHANGED <<kind, max>>
HeapDelete(id) == id \in Elems /\ m' = Del(m, id) /\ UNCHANGED <<kind, max>>
HeapObserve(peek, empty, size) ==             \* size -1: not observable
  /\ IF peek = 0 THEN Elems = {} ELSE IsMinItem(peek)
  /\ empty = (Elems = {})
  /\ size \in {-1, Cardinality(Elems)}
  /\ Keep

\* ---- insertion-ordered set: m[register] = sequence without duplicates -----
Reg(r) == IF r \in DOMAIN m THEN m[r] ELSE <<>>
In(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE AddAll(_, _)
AddAll(s, xs) == IF xs = <<>> THEN s
                 ELSE AddAll(IF In(s, Head(xs)) THEN s ELSE Append(s, Head(xs)), Tail(xs))
Drop(s, xs) == SelectSeq(s, LAMBDA x : ~In(xs, x))
SetAssign(dst, s) == m' = Put(m, dst, s) /\ UNCHANGED <<kind, max>>
SetOf(dst, xs) == SetAssign(dst, AddAll(<<>>, xs))
SetAdd(r, xs) == SetAssign(r, AddAll(Reg(r), xs))
SetAdded(src, dst, xs) == SetAssign(dst, AddAll(Reg(src), xs))
SetWithout(src, dst, xs) == SetAssign(dst, Drop(Reg(src), xs))
SetDiff(a, b, dst) == SetAssign(dst, Drop(Reg(a), Reg(b)))
SetObserve(obs) ==      \* for each register: <<reg, slice, all, size, <<has>>>>, values 1..n
  /\ \A i \in 1..Len(obs) :
       LET s == Reg(obs[i][1]) IN
       /\ obs[i][2] = s /\ obs[i][3] = s /\ obs[i][4] = Len(s)
       /\ \A x \in 1..Len(obs[i][5]) : obs[i][5][x] = In(s, x)
  /\ Keep

\* ---- sorted map ----------------------------------------------------------
SmapSet(k, v, new) == new = (k \notin Elems) /\ m' = Put(m, k, v) /\ UNCHANGED <<kind, max>>
SmapDelete(k, removed) == removed = (k \in Elems) /\ m' = Del(m, k) /\ UNCHANGED <<kind, max>>
SmapObserve(keys, values, all, size, gets) ==
  /\ Len(keys) = Cardinality(Elems) /\ Len(values) = Len(keys) /\ Len(all) = Len(keys) /\ size = Len(keys)
  /\ \A i \in 1..Len(keys) : keys[i] \in Elems /\ values[i] = m[keys[i]] /\ all[i] = <<keys[i], m[keys[i]]>>
  /\ \A i \in 1..Len(keys)-1 : keys[i] < keys[i+1]
  /\ \A i \in 1..Len(gets) : gets[i][2] = Lookup(m, gets[i][1], Absent) /\ gets[i][3] = (gets[i][1] \in Elems)
  /\ Keep

\* ---- merges and search: pure functions of their inputs --------------------
ItemsOf(ls) == UNION {{ls[i][j] : j \in 1..Len(ls[i])} : i \in 1..Len(ls)}
Newest(ls, k) == CHOOSE x \in ItemsOf(ls) : x[1] = k /\ \A y \in ItemsOf(ls) : y[1] = k => y[2] <= x[2]
\* merge of runs of <<key, seq>>: each key once, ascending, with its highest seq; limit -1: everything
MergeResult(ls, lim, out) ==
  LET ks == {x[1] : x \in ItemsOf(ls)} IN
  /\ Len(out) = IF lim < 0 \/ lim > Cardinality(ks) THEN Cardinality(ks) ELSE lim
  /\ \A i \in 1..Len(out) : out[i][1] \in ks /\ out[i] = Newest(ls, out[i][1])
  /\ \A i \in 1..Len(out)-1 : out[i][1] < out[i+1][1]
  /\ out # <<>> => \A k \in ks : k < out[Len(out)][1] => \E i \in 1..Len(out) : out[i][1] = k
  /\ Keep
\* merge of runs of <<priority, id>> (ids distinct): all items, non-decreasing
MergeSortedResult(ls, lim, out) ==
  LET S == ItemsOf(ls) IN
  /\ Len(out) = IF lim < 0 \/ lim > Cardinality(S) THEN Cardinality(S) ELSE lim
  /\ \A i \in 1..Len(out) : out[i] \in S
  /\ \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ out[i][1] <= out[j][1]
  /\ out # <<>> => \A x \in S : x[1] < out[Len(out)][1] => \E i \in 1..Len(out) : out[i] = x
  /\ Keep
\* search in a strictly ascending list: res is <<target, index (0-based), found>>
SearchResult(xs, res) ==
  /\ \A i \in 1..Len(res) :
       LET t == res[i][1] IN
       /\ res[i][3] = (\E j \in 1..Len(xs) : xs[j] = t)
       /\ res[i][3] => xs[res[i][2] + 1] = t
  /\ Keep

-----------------------------------------------------------------------------
(* Bounded design model: every kind, a two-letter alphabet.                   *)
MCKeys == {<<>>, <<1>>, <<1, 1>>, <<2>>}
MCInit == SInit
MCNext ==
  \/ kind = "none" /\ \E k \in {"zip", "cache", "heap", "set", "smap"} : New(k, 2)
  \/ kind = "zip" /\ \E k \in MCKeys, v \in 1..2 : ZipPut(k, v, Lookup(m, k, Absent))
  \/ kind = "cache" /\ \/ \E k \in MCKeys : CachePush(k) \/ CacheDelete(k)
                       \/ \E k \in MCKeys : CachePop(TRUE, k) \/ CachePopLast(TRUE, k)
  \/ kind = "heap" /\ \E id \in 1..3, p \in 0..2 : HeapPush(id, p) \/ HeapPop(id) \/ HeapFix(id, p) \/ HeapDelete(id)
  \/ kind = "set" /\ \E a, b \in 1..2, x \in 1..3 : SetAdded(a, b, <<x>>) \/ SetWithout(a, b, <<x>>) \/ SetDiff(a, b, a)
  \/ kind = "smap" /\ \E k \in 1..3, v \in 1..2 : SmapSet(k, v, k \notin Elems) \/ SmapDelete(k, k \in Elems)
MCSpec == MCInit /\ [][MCNext]_svars
(* extraction is unique up to ties, and a popped element was the extreme one  *)
MCInv ==
  /\ kind = "cache" => \A x, y \in Elems : IsMinKey(x) /\ IsMinKey(y) => x = y
  /\ kind = "cache" /\ Elems # {} => \E x \in Elems : IsMinKey(x)
  /\ kind = "heap" /\ Elems # {} => \E x \in Elems : IsMinItem(x)
  /\ kind = "set" => \A r \in DOMAIN m : \A i, j \in 1..Len(m[r]) : m[r][i] = m[r][j] => i = j
=============================================================================
