---------------------------- MODULE SourceRunner ----------------------------
(* A source runner: records are read from splits, keyed asynchronously in      *)
(* batches, put back into order, routed to operators and delivered in batches;  *)
(* barriers and watermarks travel in the same stream.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Splits,   \* set of splits
          PerSplit, \* records per split
          KeyBatch, \* keying batch size
          OpBatch,  \* operator batch size
          Ops,      \* 1..n
          MaxCks, MaxWms,
          TimeOf    \* <<split, i>> -> event time
VARIABLES pos,      \* split -> records read
          stream,   \* output stream: "ev" placeholders, <<"bar", n>>, "wm"
          batch,    \* records waiting to be keyed
          flight,   \* place -> batch being keyed
          places,   \* next place to reserve, next place to emit
          keyed,    \* keyed records in order
          top,      \* largest forwarded time
          obuf,     \* operator -> items of the current batch
          osend,    \* operator -> batches on their way
          got,      \* operator -> items delivered
          cks,      \* positions reported with barrier i
          wms       \* watermarks requested so far
vars == <<pos, stream, batch, flight, places, keyed, top, obuf, osend, got, cks, wms>>
Init == /\ pos = [s \in Splits |-> 0] /\ stream = <<>> /\ batch = <<>> /\ flight = {} /\ places = <<1, 1>>
        /\ keyed = <<>> /\ top = 0 /\ obuf = [o \in Ops |-> <<>>] /\ osend = [o \in Ops |-> <<>>]
        /\ got = [o \in Ops |-> <<>>] /\ cks = <<>> /\ wms = 0
OwnerOf(r) == ((r[1] + r[2]) % Cardinality(Ops)) + 1
Send(o, it) == LET b == Append(obuf[o], it) IN
  IF Len(b) >= OpBatch THEN <<[obuf EXCEPT ![o] = <<>>], [osend EXCEPT ![o] = Append(@, b)]>>
  ELSE <<[obuf EXCEPT ![o] = b], osend>>
Read(s) == /\ pos[s] < PerSplit
           /\ pos' = [pos EXCEPT ![s] = @ + 1]
           /\ stream' = Append(stream, <<"ev", 0>>)
           /\ LET b == Append(batch, <<s, pos[s] + 1>>) IN
              IF Len(b) >= KeyBatch
              THEN batch' = <<>> /\ flight' = flight \cup {<<places[1], b>>} /\ places' = <<places[1] + 1, places[2]>>
              ELSE batch' = b /\ UNCHANGED <<flight, places>>
           /\ UNCHANGED <<keyed, top, obuf, osend, got, cks, wms>>
KeyTimeout == /\ batch # <<>> /\ flight' = flight \cup {<<places[1], batch>>} /\ batch' = <<>>
              /\ places' = <<places[1] + 1, places[2]>>
              /\ UNCHANGED <<pos, stream, keyed, top, obuf, osend, got, cks, wms>>
\* keying calls finish in any order; their results leave the buffer in the order of their places
KeyDone == \E f \in flight :
  /\ f[1] = places[2]
  /\ keyed' = keyed \o f[2] /\ flight' = flight \ {f} /\ places' = <<places[1], places[2] + 1>>
  /\ UNCHANGED <<pos, stream, batch, top, obuf, osend, got, cks, wms>>
Barrier == /\ Len(cks) < MaxCks /\ cks' = Append(cks, pos) /\ stream' = Append(stream, <<"bar", Len(cks) + 1>>)
           /\ UNCHANGED <<pos, batch, flight, places, keyed, top, obuf, osend, got, wms>>
Tick == /\ wms < MaxWms /\ wms' = wms + 1 /\ stream' = Append(stream, <<"wm", 0>>)
        /\ UNCHANGED <<pos, batch, flight, places, keyed, top, obuf, osend, got, cks>>
Max(a, b) == IF a < b THEN b ELSE a
Forward == /\ stream # <<>>
           /\ LET it == Head(stream) IN
              CASE it[1] = "ev" ->
                     /\ keyed # <<>>
                     /\ LET r == Head(keyed) o == OwnerOf(r) n == Send(o, <<"ev", r[1], r[2]>>) IN
                        obuf' = n[1] /\ osend' = n[2] /\ top' = Max(top, TimeOf[r[1]][r[2]])
                     /\ keyed' = Tail(keyed)
                [] it[1] = "bar" \/ it[1] = "wm" ->
                     LET item == IF it[1] = "bar" THEN <<"bar", it[2], 0>> ELSE <<"wm", top - 1, 0>>
                         b == [o \in Ops |-> Append(obuf[o], item)] IN
                     /\ obuf' = [o \in Ops |-> IF Len(b[o]) >= OpBatch THEN <<>> ELSE b[o]]
                     /\ osend' = [o \in Ops |-> IF Len(b[o]) >= OpBatch THEN Append(osend[o], b[o]) ELSE osend[o]]
                     /\ UNCHANGED <<top, keyed>>
           /\ stream' = Tail(stream)
           /\ UNCHANGED <<pos, batch, flight, places, got, cks, wms>>
OpTimeout(o) == /\ obuf[o] # <<>> /\ osend' = [osend EXCEPT ![o] = Append(@, obuf[o])] /\ obuf' = [obuf EXCEPT ![o] = <<>>]
                /\ UNCHANGED <<pos, stream, batch, flight, places, keyed, top, got, cks, wms>>
Deliver(o) == /\ osend[o] # <<>> /\ got' = [got EXCEPT ![o] = @ \o Head(osend[o])] /\ osend' = [osend EXCEPT ![o] = Tail(@)]
              /\ UNCHANGED <<pos, stream, batch, flight, places, keyed, top, obuf, cks, wms>>
Next == (\E s \in Splits : Read(s)) \/ KeyTimeout \/ KeyDone \/ Barrier \/ Tick \/ Forward
        \/ (\E o \in Ops : OpTimeout(o) \/ Deliver(o))
Spec == Init /\ [][Next]_vars /\ WF_vars(KeyTimeout) /\ WF_vars(KeyDone) /\ WF_vars(Forward)
        /\ \A o \in Ops : WF_vars(OpTimeout(o)) /\ WF_vars(Deliver(o))
\* ---- properties over what was delivered
At(o, i) == got[o][i]
IsEv(o, i) == i <= Len(got[o]) /\ At(o, i)[1] = "ev"
Once == \A o, p \in Ops : \A i \in 1..Len(got[o]), j \in 1..Len(got[p]) :
          (IsEv(o, i) /\ IsEv(p, j) /\ At(o, i) = At(p, j)) => (o = p /\ i = j)
InOrder == \A o \in Ops : \A i, j \in 1..Len(got[o]) :
          (i < j /\ IsEv(o, i) /\ IsEv(o, j) /\ At(o, i)[2] = At(o, j)[2]) => At(o, i)[3] < At(o, j)[3]
Covered(n, r) == r[3] <= cks[n][r[2]]
Barriers == \A o \in Ops : \A i, j \in 1..Len(got[o]) :
          (At(o, i)[1] = "bar" /\ IsEv(o, j)) => ((j < i) <=> Covered(At(o, i)[2], At(o, j)))
NoneBehind == \A o \in Ops : \A i \in 1..Len(got[o]) : At(o, i)[1] = "bar" =>
          \A s \in Splits : \A q \in 1..PerSplit :
             (OwnerOf(<<s, q>>) = o /\ q <= cks[At(o, i)[2]][s]) => \E j \in 1..i : At(o, j) = <<"ev", s, q>>
Marks == \A o \in Ops : \A i, j \in 1..Len(got[o]) :
          /\ (i < j /\ At(o, i)[1] = "wm" /\ At(o, j)[1] = "wm") => At(o, i)[2] <= At(o, j)[2]
MarksBehind == \A o \in Ops : \A i \in 1..Len(got[o]) : At(o, i)[1] = "wm" => At(o, i)[2] < Max(top, 1)
AllOut == <>[](\A s \in Splits : \A q \in 1..pos[s] : \E o \in Ops : \E i \in 1..Len(got[o]) : At(o, i) = <<"ev", s, q>>)
MCTimeOf == <<<<1, 3, 2>>, <<2, 1, 4>>>>
=============================================================================
