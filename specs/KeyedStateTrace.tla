--------------------------- MODULE KeyedStateTrace ---------------------------
(* What handlers of real operators were given and returned, and when those    *)
(* operators took checkpoints.                                                *)
EXTENDS KeyedState, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, ksvars>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Init == l = 1 /\ KSInit
Begin == Is("Begin") /\ KSBegin(E.kg)
Deploy == Is("Deploy") /\ (E.ck # 0 => E.ck \in DOMAIN snaps) /\ KSDeploy(E.ranges, E.ck)
Deployed == Is("Deployed") /\ E.panic = "" /\ UNCHANGED ksvars
Flat(ss) == UNION {ToSet(ss[i]) : i \in 1..Len(ss)}
Send == Is("Send") /\ KSSend(E.ck, Flat(E.before), Flat(E.after), E.wm, E.wm2)
\* events: [key, id, t]; id 0: a timer
Event == {i \in 1..Len(E.evs) : E.evs[i].id > 0}
Timer == {i \in 1..Len(E.evs) : E.evs[i].id = 0}
Entries(s) == UNION {{<<s[i][1], s[i][2][j][1], s[i][2][j][2]>> : j \in 1..Len(s[i][2])} : i \in 1..Len(s)}
Count(s) == FoldLeft(LAMBDA a, b : a + Len(b[2]), 0, s)
StatesOk == \* the state given is that of the keys of the events, each key once, each namespace once, each entry once
  /\ {E.states[i][1] : i \in 1..Len(E.states)} = {E.evs[i].key : i \in 1..Len(E.evs)}
  /\ Cardinality({E.evs[i].key : i \in 1..Len(E.evs)}) = Len(E.states)
  /\ \A i \in 1..Len(E.states) :
       LET s == E.states[i][2] IN
       /\ Entries(s) = m[E.states[i][1]] /\ Count(s) = Cardinality(m[E.states[i][1]])
       /\ Cardinality({s[j][1] : j \in 1..Len(s)}) = Len(s)
ReqOk ==
  /\ \A i \in Event : MayHandle(E.op, E.evs[i].id, E.evs[i].key)
  /\ Cardinality({E.evs[i].id : i \in Event}) = Cardinality(Event)
  /\ \A i \in Timer : MayFire(E.op, E.evs[i].key, E.evs[i].t, E.wm)
  /\ Cardinality({<<E.evs[i].key, E.evs[i].t>> : i \in Timer}) = Cardinality(Timer)
  /\ MayTell(E.op, E.wm)
  /\ StatesOk
Req == /\ Is("Req") /\ (ReqOk = TRUE)
       /\ KSHandled({E.evs[i].id : i \in Event}, {<<E.evs[i].key, E.evs[i].t>> : i \in Timer}, E.resp, E.wm)
Ack == Is("Ack") /\ (CutOk(E.op, E.ck) = TRUE) /\ KSAck(E.op, E.ck)
Complete == Is("Complete") /\ KSComplete(E.ck)
\* the handler failed on purpose, everything is shut down; a deployment follows
Break == Is("Break") /\ KSBreak(E.op)
Failed == Is("Failed") /\ UNCHANGED ksvars
\* the end: watermarks passed every timer, batches are flushed
Quiet == /\ Is("Quiet") /\ tm = {} /\ handled = Ids(sent) /\ UNCHANGED ksvars
Next == Begin \/ Deploy \/ Deployed \/ Send \/ Req \/ Ack \/ Complete \/ Break \/ Failed \/ Quiet
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
