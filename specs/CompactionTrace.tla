---------------------------- MODULE CompactionTrace ----------------------------
(* Compaction steps of the real compactor on real level lists (C18).  A level    *)
(* list is logged completely: levels of tables of entries <<key, seq, what>>.     *)
EXTENDS ByteSeq, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lv, want
vars == <<l, lv, want>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
EntriesOf(t) == RangeOf(t.es)
LevelEntries(v) == UNION {EntriesOf(v[i]) : i \in 1..Len(v)}
Entries(L) == UNION {LevelEntries(L[i]) : i \in 1..Len(L)}
Visible(L) == LET es == Entries(L) top == [k \in {e[1] : e \in es} |-> Max({e[2] : e \in {x \in es : x[1] = k}})]
                  live == {e \in es : e[2] = top[e[1]] /\ e[3] # "D"} IN
              [k \in {e[1] : e \in live} |-> (CHOOSE e \in live : e[1] = k)[3]]
GoodTable(t) ==
   /\ t.es # <<>>
   /\ \A i \in 1..Len(t.es)-1 : LexLess(t.es[i][1], t.es[i+1][1])
   /\ t.lo = t.es[1][1] /\ t.hi = t.es[Len(t.es)][1]
   /\ t.slo = Min({e[2] : e \in EntriesOf(t)}) /\ t.shi = Max({e[2] : e \in EntriesOf(t)})
Valid(L) ==
   /\ \A i \in 1..Len(L) : \A j \in 1..Len(L[i]) : GoodTable(L[i][j])
   \* below level 0: sorted and non-overlapping
   /\ \A i \in 2..Len(L) : \A j \in 1..Len(L[i])-1 : LexLess(L[i][j].hi, L[i][j+1].lo)
   \* newer data never lies beneath older data of the same key
   /\ LET lo == [i \in 1..Len(L) |-> LevelEntries(L[i])] IN
      \A i, j \in 1..Len(L) : i < j => \A d \in lo[j], e \in lo[i] : e[1] = d[1] => e[2] > d[2]
Init == l = 1 /\ lv = <<>> /\ want = EmptyMap
Begin == Is("Begin") /\ lv' = <<>> /\ want' = EmptyMap
Layout == /\ Is("Layout") /\ Fine /\ lv' = E.levels /\ want' = Visible(E.levels)
          /\ Assert(Valid(E.levels), "the driver built an invalid layout")
\* a flush adds one table to level 0 and changes nothing else
Flush == /\ Is("Flush") /\ Fine
         /\ RangeOf(E.levels[1]) = RangeOf(lv[1]) \cup {E.table}
         /\ Len(E.levels[1]) = Len(lv[1]) + 1
         /\ \A i \in 2..Len(lv) : E.levels[i] = lv[i]
         /\ lv' = E.levels /\ want' = Visible(E.levels)
\* a compaction step
Step == /\ Is("Step") /\ Fine
        /\ Len(E.levels) = Len(lv)
        /\ Valid(E.levels)
        /\ Entries(E.levels) \subseteq Entries(lv)
        /\ Visible(E.levels) = want
        /\ lv' = E.levels /\ UNCHANGED want
Obs == /\ Is("Obs") /\ Fine
       /\ \A i \in 1..Len(E.gets) : E.gets[i][2] = Lookup(want, E.gets[i][1], "-")
       /\ \A i \in 1..Len(E.scans) : ListsMap(E.scans[i][2], want, Under(want, E.scans[i][1]))
       /\ UNCHANGED <<lv, want>>
Next == Begin \/ Layout \/ Flush \/ Step \/ Obs
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
