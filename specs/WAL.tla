--------------------------------- MODULE WAL ---------------------------------
(* The write-ahead log (C17, C08): segments buffered in memory, cut when a      *)
(* memtable is rotated, dropped once their entries are in tables, carried over  *)
(* into the next file when a checkpoint saves the current one.                  *)
EXTENDS Integers, Sequences
CONSTANTS MaxOps
VARIABLES hist,   \* every operation appended
          segs,   \* <<[es, top]>>; the last one is active
          flushed, \* highest sequence number the log was truncated to
          files   \* saved logs: <<entries, flushed, length of the history at the save>>
vars == <<hist, segs, flushed, files>>
Init == hist = <<>> /\ segs = <<[es |-> <<>>, top |-> 0]>> /\ flushed = 0 /\ files = {}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).es \o Flat(Tail(s))
Append1 == /\ Len(hist) < MaxOps
           /\ LET n == Len(hist) + 1 IN
              /\ hist' = Append(hist, n)
              /\ segs' = [segs EXCEPT ![Len(segs)] = [es |-> Append(@.es, n), top |-> n]]
           /\ UNCHANGED <<flushed, files>>
Cut == /\ Len(segs) < 4 /\ segs' = Append(segs, [es |-> <<>>, top |-> Len(hist)])
       /\ UNCHANGED <<hist, flushed, files>>
RECURSIVE Drop(_, _)
Drop(w, s) == IF Len(w) > 1 /\ Head(w).top <= s THEN Drop(Tail(w), s) ELSE w
Truncate == \E s \in flushed..Len(hist) : /\ segs' = Drop(segs, s) /\ flushed' = s
                                          /\ UNCHANGED <<hist, files>>
Rotate == /\ Len(segs) < 4
          /\ files' = files \cup {<<Flat(segs), flushed, Len(hist)>>}
          /\ segs' = Append(segs, [es |-> <<>>, top |-> Len(hist)])
          /\ UNCHANGED <<hist, flushed>>
Next == Append1 \/ Cut \/ Truncate \/ Rotate
Spec == Init /\ [][Next]_vars
\* the reader counts entries from the first sequence number of the file
ReadAfter(es, a) == IF es = <<>> THEN <<>> ELSE SubSeq(es, a - Head(es) + 2, Len(es))
ReplaysExactly == \A f \in files : \A a \in f[2]..f[3] :
   ReadAfter(f[1], a) = [i \in 1..(f[3] - a) |-> a + i]
Contiguous == \A f \in files : f[1] # <<>> => Head(f[1]) <= f[2] + 1
=============================================================================
