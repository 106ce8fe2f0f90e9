----------------------------- MODULE TimersTrace -----------------------------
(* What real timer registries and operators did with timers and watermarks.   *)
EXTENDS Timers, ByteSeq, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  told,   \* the watermark the handler was told last
  saved   \* checkpoint -> timers pending at it
vars == <<l, pend, lo, hi, told, saved>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Init == l = 1 /\ pend = {} /\ lo = EmptyMap /\ hi = EmptyMap /\ told = 0 /\ saved = EmptyMap
Begin == Is("Begin") /\ pend' = {} /\ lo' = EmptyMap /\ hi' = EmptyMap /\ told' = 0 /\ saved' = EmptyMap
\* cks: the checkpoints it starts from; keys: those it owns
Deploy == /\ Is("Deploy") /\ Fine
          /\ Deployed(RangeOf(E.srs), {p \in UNION {saved[c] : c \in RangeOf(E.cks)} : p[1] \in RangeOf(E.keys)})
          /\ told' = Epoch /\ UNCHANGED saved
\* a watermark arrives; a message under way with others (Reporting, Reported) may take effect any time between
Report == /\ Is("Report") /\ Reported(E.sr, E.t) /\ UNCHANGED <<told, saved>>
RepBegin == /\ Is("Reporting") /\ Reporting(E.sr, E.t) /\ UNCHANGED <<told, saved>>
RepEnd == /\ Is("Reported") /\ Fine /\ Reported(E.sr, E.t) /\ UNCHANGED <<told, saved>>
\* the registry is given a timer
DoSet == /\ Is("Set") /\ Fine /\ SetAt(E.k, E.t, Least(hi)) /\ UNCHANGED <<told, saved>>
\* the handler returned timers: the watermark in effect is the one it was told
Resp == /\ Is("Resp") 
        /\ pend' = pend \cup {p \in RangeOf(E.timers) : p[2] > told}
        /\ UNCHANGED <<lo, hi, told, saved>>
Fire == /\ Is("Fire") /\ Fired(E.k, E.t) /\ UNCHANGED <<told, saved>>
\* an advance of the registry is over / everything sent has been dealt with and batches are flushed
Quiet == /\ Is("Quiet") /\ Fine /\ NoneDue /\ UNCHANGED <<pend, lo, hi, told, saved>>
\* the handler is called
Req == /\ Is("Req") /\ Told(E.wm) /\ E.wm >= told
       /\ \A i \in 1..Len(E.timers) : E.timers[i][2] <= E.wm
       /\ \A i \in 1..Len(E.timers) : E.timers[i] \in pend
       /\ \A i, j \in 1..Len(E.timers) : i < j => E.timers[i] # E.timers[j] /\ E.timers[i][2] <= E.timers[j][2]
       /\ E.timers # <<>> => \A p \in pend \ RangeOf(E.timers) : p[2] >= E.timers[Len(E.timers)][2]
       /\ pend' = pend \ RangeOf(E.timers) /\ told' = E.wm
       /\ UNCHANGED <<lo, hi, saved>>
Ckpt == /\ Is("Ckpt") /\ Fine /\ NoneDue /\ saved' = Put(saved, E.ck, pend) /\ UNCHANGED <<pend, lo, hi, told>>
Next == Begin \/ Deploy \/ Report \/ RepBegin \/ RepEnd \/ DoSet \/ Resp \/ Fire \/ Quiet \/ Req \/ Ckpt
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
