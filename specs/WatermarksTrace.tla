--------------------------- MODULE WatermarksTrace ---------------------------
EXTENDS Watermarks, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, top, mark   \* largest timestamp so far, latest watermark (sequences of length 0 or 1)
vars == <<l, top, mark>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Init == l = 1 /\ top = <<>> /\ mark = <<>>
Begin == Is("Begin") /\ top' = <<>> /\ mark' = <<>>
Ev == /\ Is("Ev") /\ top' = <<IF top = <<>> THEN E.t ELSE Later(top[1], E.t)>> /\ UNCHANGED mark
Wm == /\ Is("Wm") /\ (top # <<>> => Follows(E.t, top[1])) /\ (mark # <<>> => Leq(mark[1], E.t))
      /\ mark' = <<E.t>> /\ UNCHANGED top
Next == Begin \/ Ev \/ Wm
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
