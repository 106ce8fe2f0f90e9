-------------------------------- MODULE DKV --------------------------------
(* The embedded key-value store: memtables, background flush, levelled      *)
(* tables, compaction, write-ahead log, checkpoints (C07 C08 C18, C03 C06). *)
(* The foreground (puts, deletes, reads, checkpoint calls) is one thread;    *)
(* flush, compaction and checkpoint saving run in the background, each in a  *)
(* capture step and an apply step, interleaving freely.                      *)
(* An entry is <<seq, value>>; value 0 is a tombstone.  A table is a         *)
(* function from some keys to entries.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, MaxOps, MemCap, MaxCk

VARIABLES m, seq, mems, l0, l1, base, latest, wal, flushing, compact, ckpts, rd
vars == <<m, seq, mems, l0, l1, base, latest, wal, flushing, compact, ckpts, rd>>

None == [k \in {} |-> <<0, 0>>]
Newest(t, u) ==   \* merge keeping the newest entry
  [k \in DOMAIN t \cup DOMAIN u |->
     IF k \notin DOMAIN u THEN t[k] ELSE IF k \notin DOMAIN t THEN u[k]
     ELSE IF t[k][1] > u[k][1] THEN t[k] ELSE u[k]]
RECURSIVE MergeAll(_)
MergeAll(s) == IF s = <<>> THEN None ELSE Newest(Head(s), MergeAll(Tail(s)))
Restrict(t, S) == [k \in DOMAIN t \cap S |-> t[k]]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
TopSeq(t) == IF DOMAIN t = {} THEN 0 ELSE Max({t[k][1] : k \in DOMAIN t})

Init == /\ m = [k \in Keys |-> 0] /\ seq = 0 /\ mems = <<None>> /\ l0 = <<>> /\ l1 = None /\ base = None
        /\ latest = 0 /\ wal = <<[es |-> <<>>, top |-> 0]>> /\ flushing = 0 /\ compact = <<>> /\ ckpts = {} /\ rd = <<>>

\* ---- foreground ----------------------------------------------------------
Write(k, v) ==
  /\ seq < MaxOps /\ rd = <<>>
  /\ seq' = seq + 1 /\ m' = [m EXCEPT ![k] = v]
  /\ LET act == Newest(mems[Len(mems)], [x \in {k} |-> <<seq + 1, v>>])
         seg == wal[Len(wal)]
         w2 == [wal EXCEPT ![Len(wal)] = [es |-> Append(seg.es, <<seq + 1, k, v>>), top |-> seq + 1]] IN
     IF Cardinality(DOMAIN act) >= MemCap
     THEN /\ mems' = Append([mems EXCEPT ![Len(mems)] = act], None)     \* rotate
          /\ wal' = Append(w2, [es |-> <<>>, top |-> seq + 1])            \* cut
     ELSE mems' = [mems EXCEPT ![Len(mems)] = act] /\ wal' = w2
  /\ UNCHANGED <<l0, l1, base, latest, flushing, compact, ckpts, rd>>

FirstIn(s, k) ==  \* newest table of s (last is newest) holding k
  LET I == {i \in 1..Len(s) : k \in DOMAIN s[i]} IN IF I = {} THEN <<>> ELSE s[Max(I)][k]
SstGet(k, a, b, c) == LET e == FirstIn(a, k) IN
  IF e # <<>> THEN e ELSE IF k \in DOMAIN b THEN b[k] ELSE IF k \in DOMAIN c THEN c[k] ELSE <<>>
\* a read looks into the memtables, later into the tables of that later moment
ReadMem(k) == rd = <<>> /\ rd' = <<k, FirstIn(mems, k)>>
              /\ UNCHANGED <<m, seq, mems, l0, l1, base, latest, wal, flushing, compact, ckpts>>
ReadSst == rd # <<>> /\ rd' = <<>>
           /\ UNCHANGED <<m, seq, mems, l0, l1, base, latest, wal, flushing, compact, ckpts>>
ReadResult == IF rd = <<>> THEN 0
              ELSE LET e == IF rd[2] # <<>> THEN rd[2] ELSE SstGet(rd[1], l0, l1, base) IN IF e = <<>> THEN 0 ELSE e[2]

RECURSIVE FlatW(_)
FlatW(s) == IF s = <<>> THEN <<>> ELSE Head(s).es \o FlatW(Tail(s))
Checkpoint ==
  /\ Cardinality(ckpts) < MaxCk /\ rd = <<>>
  /\ ckpts' = ckpts \cup {[id |-> Cardinality(ckpts) + 1, content |-> m, l0 |-> l0, l1 |-> l1, base |-> base,
                           after |-> latest, log |-> FlatW(wal)]}
  /\ wal' = Append(wal, [es |-> <<>>, top |-> seq])     \* the next log carries the segments with their tops
  /\ UNCHANGED <<m, seq, mems, l0, l1, base, latest, flushing, compact, rd>>

\* ---- background ----------------------------------------------------------
FlushStart == /\ flushing = 0 /\ Len(mems) > 1 /\ flushing' = Len(mems) - 1
              /\ UNCHANGED <<m, seq, mems, l0, l1, base, latest, wal, compact, ckpts, rd>>
RECURSIVE Drop(_, _)
Drop(w, s) == IF Len(w) > 1 /\ Head(w).top <= s THEN Drop(Tail(w), s) ELSE w
FlushSwap == /\ flushing > 0
             /\ l0' = l0 \o SubSeq(mems, 1, flushing)
             /\ latest' = Max({latest} \cup {TopSeq(mems[i]) : i \in 1..flushing})
             /\ mems' = SubSeq(mems, flushing + 1, Len(mems))
             /\ wal' = Drop(wal, latest')
             /\ flushing' = 0
             /\ UNCHANGED <<m, seq, l1, base, compact, ckpts, rd>>
CompactStart ==
  /\ compact = <<>>
  /\ \/ l0 # <<>> /\ compact' = <<"minor", Len(l0), Keys>>
     \/ \E S \in SUBSET DOMAIN l1 : S # {} /\ compact' = <<"majorL1", 0, S>>    \* some tables of the level above the base
     \/ l0 # <<>> /\ compact' = <<"major", Len(l0), Keys>>                        \* everything above the base
  /\ UNCHANGED <<m, seq, mems, l0, l1, base, latest, wal, flushing, ckpts, rd>>
CompactSwap ==
  /\ compact # <<>>
  /\ LET n == compact[2] S == compact[3]
         run == MergeAll(SubSeq(l0, 1, n)) IN
     /\ l0' = SubSeq(l0, n + 1, Len(l0))
     /\ CASE compact[1] = "minor" -> l1' = Newest(run, l1) /\ base' = base
          [] compact[1] = "majorL1" -> l1' = Restrict(l1, DOMAIN l1 \ S) /\ base' = Newest(Restrict(l1, S), base)
          [] OTHER -> l1' = None /\ base' = Newest(run, Newest(l1, base))
  /\ compact' = <<>>
  /\ UNCHANGED <<m, seq, mems, latest, wal, flushing, ckpts, rd>>

Next == \/ \E k \in Keys, v \in {0, seq + 1} : Write(k, v)
        \/ \E k \in Keys : ReadMem(k)
        \/ ReadSst \/ Checkpoint \/ FlushStart \/ FlushSwap \/ CompactStart \/ CompactSwap
Spec == Init /\ [][Next]_vars

\* ---- properties ------------------------------------------------------------
ReadsLatest == rd # <<>> => ReadResult = m[rd[1]]
ScanAll(ms, a, b, c) == MergeAll(ms \o a \o <<b, c>>)
Val(t, k) == IF k \in DOMAIN t THEN t[k][2] ELSE 0
ScansLatest == \A k \in Keys : Val(ScanAll(mems, l0, l1, base), k) = m[k]
RECURSIVE Replay(_, _, _)
Replay(t, log, after) ==
  IF log = <<>> THEN t
  ELSE Replay(IF Head(log)[1] <= after THEN t ELSE Newest(t, [x \in {Head(log)[2]} |-> <<Head(log)[1], Head(log)[3]>>]), Tail(log), after)
RestoresExactly ==
  \A c \in ckpts : \A k \in Keys :
     Val(Replay(ScanAll(<<>>, c.l0, c.l1, c.base), c.log, c.after), k) = c.content[k]
\* newer data never lies beneath older data for the same key
NewerAbove ==
  LET levels == <<base, l1>> \o l0 \o mems IN
  \A i, j \in 1..Len(levels) : i < j => \A k \in DOMAIN levels[i] \cap DOMAIN levels[j] : levels[i][k][1] < levels[j][k][1]
LogCovers == \A i \in 1..Len(mems) : \A k \in DOMAIN mems[i] :
                \E j \in 1..Len(FlatW(wal)) : FlatW(wal)[j] = <<mems[i][k][1], k, mems[i][k][2]>>
=============================================================================
