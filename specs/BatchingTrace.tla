--------------------------- MODULE BatchingTrace ----------------------------
(* What the outside sees of EventBatcher, ReorderBuffer and ReorderFetcher.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, max,
  items,   \* items added so far, in order
  cut,     \* batcher: number of items handed out
  toks,    \* batcher: <<token, item the timer was armed for>>
  segs,    \* fetcher: batches given to the fetch callback
  done,    \* fetcher: items whose fetch returned
  outn,    \* number of items emitted
  fired,   \* fetcher: items whose batch timer was delivered
  expl     \* fetcher: number of items added before the latest explicit flush
vars == <<l, kind, max, items, cut, toks, segs, done, outn, fired, expl>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
Init == /\ l = 1 /\ kind = "" /\ max = 0 /\ items = <<>> /\ cut = 0 /\ toks = {} /\ segs = {} /\ done = {} /\ outn = 0
        /\ fired = {} /\ expl = 0
Begin == /\ Is("Begin") /\ kind' = E.kind /\ max' = E.max
         /\ items' = <<>> /\ cut' = 0 /\ toks' = {} /\ segs' = {} /\ done' = {} /\ outn' = 0 /\ fired' = {} /\ expl' = 0
Rest == SubSeq(items, cut + 1, Len(items))
Add == /\ Is("Add") /\ Fine /\ items' = Append(items, E.x)
       /\ UNCHANGED <<kind, max, cut, toks, segs, done, outn, fired, expl>>
\* ---- EventBatcher
IsFull == /\ Is("IsFull") /\ Fine /\ E.res = (Len(Rest) >= max)
          /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, outn, fired, expl>>
\* a timer armed when item number E.item was added delivered token E.tok
Timeout == /\ Is("Timeout") /\ Fine /\ toks' = toks \cup {<<E.tok, E.item>>}
           /\ \A t \in toks : t[1] = E.tok => t[2] = E.item
           /\ UNCHANGED <<kind, max, items, cut, segs, done, outn, fired, expl>>
\* token E.tok (-1: the current batch) asked for
Flush == /\ Is("Flush") /\ Fine
         /\ LET mine == E.tok = -1 \/ \E t \in toks : t[1] = E.tok /\ t[2] > cut IN
            IF mine THEN E.res = Rest /\ cut' = Len(items)
                    ELSE E.res = <<>> /\ cut' = cut
         /\ UNCHANGED <<kind, max, items, toks, segs, done, outn, fired, expl>>
\* ---- ReorderFetcher: items are numbered 1, 2, 3 ...
FetchStart ==
  /\ Is("FetchStart") /\ Fine
  /\ Len(E.seg) > 0 /\ \A i \in 1..Len(E.seg)-1 : E.seg[i+1] = E.seg[i] + 1
  /\ LET s == {E.seg[i] : i \in 1..Len(E.seg)} IN
     /\ s \subseteq 1..Len(items)
     /\ \A o \in segs : o \cap s = {}
     /\ segs' = segs \cup {s}
     \* only a full batch, one whose own timer fired or one before an explicit flush goes out
     /\ Cardinality(s) >= max \/ s \cap fired # {} \/ E.seg[1] <= expl
  /\ UNCHANGED <<kind, max, items, cut, toks, done, outn, fired, expl>>
FetchEnd == /\ Is("FetchEnd") /\ done' = done \cup {E.seg[i] : i \in 1..Len(E.seg)}
            /\ UNCHANGED <<kind, max, items, cut, toks, segs, outn, fired, expl>>
Fire == /\ Is("Fire") /\ fired' = fired \cup {E.item}
        /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, outn, expl>>
Explicit == /\ Is("Explicit") /\ expl' = Len(items)
            /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, outn, fired>>
Out == /\ Is("Out") /\ Fine /\ E.x = outn + 1 /\ E.x \in done /\ outn' = outn + 1
       /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, fired, expl>>
Quiesce == /\ Is("Quiesce") /\ outn = Len(items)
           /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, outn, fired, expl>>
\* ---- ReorderBuffer: E.seq is handed out in increasing order; drained items come in that order
BReserve == /\ Is("Reserve") /\ Fine /\ E.seq = Len(items) /\ items' = Append(items, E.seq)
            /\ Len(items') - outn <= max
            /\ UNCHANGED <<kind, max, cut, toks, segs, done, outn, fired, expl>>
BAdd == /\ Is("BAdd") /\ Fine /\ done' = done \cup {E.seq}
        /\ UNCHANGED <<kind, max, items, cut, toks, segs, outn, fired, expl>>
RECURSIVE Run(_, _)
Run(n, d) == IF n \in d THEN <<n>> \o Run(n + 1, d) ELSE <<>>
BDrain == /\ Is("BDrain") /\ Fine      \* limit < 0: until the iterator ends
          /\ LET r == Run(outn, done) IN
             /\ E.out = IF E.limit >= 0 /\ E.limit < Len(r) THEN SubSeq(r, 1, E.limit) ELSE r
             /\ outn' = outn + Len(E.out)
          /\ UNCHANGED <<kind, max, items, cut, toks, segs, done, fired, expl>>
Next == Begin \/ Add \/ IsFull \/ Timeout \/ Flush \/ FetchStart \/ FetchEnd \/ Fire \/ Explicit \/ Out \/ Quiesce
        \/ BReserve \/ BAdd \/ BDrain
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
