-------------------------- MODULE SourceRunnerTrace --------------------------
(* What a real source runner read, reported and delivered: judged over the     *)
(* whole run.  PROP selects the property.                                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Slack == 1000
VARIABLES l,
  evs,    \* event id (in the order read) -> [split, pos, key, ts]
  cks,    \* set of <<checkpoint, split, position>> reported
  ckn,    \* checkpoints reported
  got     \* operator -> items delivered
vars == <<l, evs, cks, ckn, got>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Init == l = 1 /\ evs = <<>> /\ cks = {} /\ ckn = {} /\ got = <<>>
Begin == Is("Begin") /\ evs' = <<>> /\ cks' = {} /\ ckn' = {} /\ got' = [o \in 1..E.ops |-> <<>>]
Read == Is("Read") /\ evs' = evs \o E.evs /\ UNCHANGED <<cks, ckn, got>>
\* a checkpoint's positions; a split it does not mention is at its start
Pos == /\ Is("Pos") /\ E.ck \notin ckn
       /\ ckn' = ckn \cup {E.ck} /\ cks' = cks \cup {<<E.ck, E.splits[i][1], E.splits[i][2]>> : i \in 1..Len(E.splits)}
       /\ UNCHANGED <<evs, got>>
Batch == Is("Batch") /\ got' = [got EXCEPT ![E.op] = @ \o E.items] /\ UNCHANGED <<evs, cks, ckn>>
----
N == Len(evs)
Ops == 1..Len(got)
It(o, i) == got[o][i]
Ev(o) == {i \in 1..Len(got[o]) : It(o, i).k = "ev"}
Wm(o) == {i \in 1..Len(got[o]) : It(o, i).k = "wm"}
Bar(o) == {i \in 1..Len(got[o]) : It(o, i).k = "bar"}
\* each event at one operator once, unchanged, and (when everything had time to arrive) none missing
Delivered == UNION {{<<o, It(o, i).id>> : i \in Ev(o)} : o \in Ops}
Once == /\ \A o \in Ops : Cardinality({It(o, i).id : i \in Ev(o)}) = Cardinality(Ev(o))
        /\ \A x, y \in Delivered : x[2] = y[2] => x = y
        /\ \A o \in Ops : \A i \in Ev(o) : LET it == It(o, i) IN
              it.id \in 1..N /\ it.key = evs[it.id].key /\ it.ts = evs[it.id].ts
Complete == {x[2] : x \in Delivered} = 1..N
Ordered == \A o \in Ops : \A i, j \in Ev(o) : i < j =>
              LET a == It(o, i).id b == It(o, j).id IN
              (evs[a].split = evs[b].split /\ evs[a].key = evs[b].key) => a < b
OneOpPerKey == \A x, y \in Delivered : evs[x[2]].key = evs[y[2]].key => x[1] = y[1]
\* the reported positions
At(n, s) == LET S == {c \in cks : c[1] = n /\ c[2] = s} IN IF S = {} THEN 0 ELSE (CHOOSE c \in S : TRUE)[3]
Covered(n, id) == evs[id].pos <= At(n, evs[id].split)
\* barriers: nothing of before arrives after it
NotOvertaken == \A o \in Ops : \A b \in Bar(o) : \A i \in Ev(o) :
              (It(o, b).n \in ckn /\ Covered(It(o, b).n, It(o, i).id)) => i < b
\* and nothing of after arrives before it
NotAhead == \A o \in Ops : \A b \in Bar(o) : \A i \in Ev(o) :
              (It(o, b).n \in ckn /\ ~Covered(It(o, b).n, It(o, i).id)) => b < i
\* every reported checkpoint's barrier arrives everywhere once, in order, and only those
BarriersArrive == \A o \in Ops : /\ {It(o, b).n : b \in Bar(o)} = ckn
                                 /\ Cardinality(Bar(o)) = Cardinality(ckn)
                                 /\ \A a, b \in Bar(o) : a < b => It(o, a).n < It(o, b).n
OncePerSplit == \A c, d \in cks : (c[1] = d[1] /\ c[2] = d[2]) => c = d
\* watermarks: a watermark comes after the first event later than it was forwarded, so nothing read
\* before that event may follow the watermark
FirstLater(w) == LET S == {id \in 1..N : evs[id].ts > w} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
WmNotOvertaking == \A o \in Ops : \A w \in Wm(o) : LET f == FirstLater(It(o, w).t) IN
              \A i \in Ev(o) : w < i => It(o, i).id >= f
WmSeq(o) == SelectSeq(got[o], LAMBDA it : it.k = "wm")
WmMonotone == \A o \in Ops : LET s == WmSeq(o) IN \A i \in 1..(Len(s) - 1) : s[i].t <= s[i + 1].t
\* the k-th watermark is the same everywhere; what was forwarded before it is what precedes it in any stream
Kth(o, k) == CHOOSE i \in Wm(o) : Cardinality({j \in Wm(o) : j <= i}) = k
MaxTs(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
WmFollows == LET n == Len(WmSeq(1)) IN \A k \in 1..n : (\A o \in Ops : Len(WmSeq(o)) >= k) =>
              LET at == [o \in Ops |-> Kth(o, k)]
                  before == UNION {{It(o, i).ts : i \in {j \in Ev(o) : j < at[o]}} : o \in Ops}
                  m == MaxTs(before) IN
              /\ \A o \in Ops : It(o, at[o]).t = It(1, at[1]).t
              /\ m >= 0 => It(1, at[1]).t < m /\ m - It(1, at[1]).t <= Slack
End == /\ Is("End") /\ E.panic = ""
       \* "= TRUE": evaluated as one value, not as a conjunction of actions (recursion depth)
       /\ TRUE = CASE Prop = "C04" -> Once /\ (E.complete => Complete) /\ Ordered /\ OneOpPerKey /\ NotOvertaken /\ WmNotOvertaking
            [] Prop = "C11" -> WmMonotone /\ WmFollows
            [] Prop = "C16" -> NotOvertaken /\ NotAhead /\ (E.complete => BarriersArrive) /\ OncePerSplit
       /\ UNCHANGED <<evs, cks, ckn, got>>
Next == Begin \/ Read \/ Pos \/ Batch \/ End
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
