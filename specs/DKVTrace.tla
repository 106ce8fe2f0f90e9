------------------------------ MODULE DKVTrace ------------------------------
(* What a user of the key-value store may see, for any number of instances   *)
(* over one storage: reads return the latest write (C07), a completed         *)
(* checkpoint restores to the contents at the call (C08), also to several      *)
(* instances each owning a range of key groups (C06), and files a retained     *)
(* checkpoint refers to stay while superseded logs go (C09).                   *)
EXTENDS ByteSeq, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  dbs,   \* instance -> contents
  cks,   \* <<instance, checkpoint id>> -> contents at the call
  hs,    \* handle -> contents
  refs,  \* handle -> files it refers to
  ret,   \* retained handles
  files  \* handles dropped, successfully, by an instance that knew them: their logs have to go
vars == <<l, dbs, cks, hs, refs, ret, files>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Group(k) == k[1] * 256 + k[2]
Owned(k, lo, hi) == lo < 0 \/ (lo <= Group(k) /\ Group(k) < hi)
Restrict(m, lo, hi) == [k \in {x \in DOMAIN m : Owned(x, lo, hi)} |-> m[k]]
RECURSIVE Union(_)
Union(ms) == IF ms = <<>> THEN EmptyMap
             ELSE LET a == Head(ms) b == Union(Tail(ms)) IN
                  [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN a THEN a[k] ELSE b[k]]
Of(ids) == Union([i \in 1..Len(ids) |-> hs[ids[i]]])

Init == l = 1 /\ dbs = EmptyMap /\ cks = EmptyMap /\ hs = EmptyMap /\ refs = EmptyMap /\ ret = {} /\ files = {}
Begin == Is("Begin") /\ dbs' = EmptyMap /\ cks' = EmptyMap /\ hs' = EmptyMap /\ refs' = EmptyMap /\ ret' = {} /\ files' = {}
Open == /\ Is("Open") /\ Fine
        /\ dbs' = Put(dbs, E.db, Restrict(Of(E.hs), E.lo, E.hi))
        /\ UNCHANGED <<cks, hs, refs, ret, files>>
DoPut == /\ Is("Put") /\ Fine /\ dbs' = Put(dbs, E.db, Put(dbs[E.db], E.k, E.v))
         /\ UNCHANGED <<cks, hs, refs, ret, files>>
DoDel == /\ Is("Del") /\ Fine /\ dbs' = Put(dbs, E.db, Del(dbs[E.db], E.k))
         /\ UNCHANGED <<cks, hs, refs, ret, files>>
Get == /\ Is("Get") /\ Fine /\ E.res = Lookup(dbs[E.db], E.k, "-")
       /\ UNCHANGED <<dbs, cks, hs, refs, ret, files>>
Scan == /\ Is("Scan") /\ Fine /\ ListsMap(E.out, dbs[E.db], Under(dbs[E.db], E.p))
        /\ UNCHANGED <<dbs, cks, hs, refs, ret, files>>
Ckpt == /\ Is("Ckpt") /\ Fine /\ cks' = Put(cks, <<E.db, E.ck>>, dbs[E.db])
        /\ UNCHANGED <<dbs, hs, refs, ret, files>>
Done == /\ Is("Done") /\ E.idok /\ hs' = Put(hs, E.h, cks[<<E.db, E.ck>>]) /\ ret' = ret \cup {E.h}
        /\ UNCHANGED <<dbs, cks, refs, files>>
Peek == /\ Is("Peek") /\ Fine
        /\ LET m == Restrict(Of(E.hs), E.lo, E.hi) IN
           /\ ListsMap(E.out, m, DOMAIN m)
           /\ \A i \in 1..Len(E.gets) : E.gets[i][2] = Lookup(m, E.gets[i][1], "-")
        /\ UNCHANGED <<dbs, cks, hs, refs, ret, files>>
Refs == /\ Is("Refs") /\ refs' = Put(refs, E.h, RangeOf(E.files))
        /\ UNCHANGED <<dbs, cks, hs, ret, files>>
Rm == /\ Is("Rm") /\ \A h \in ret \cap DOMAIN refs : E.f \notin refs[h]
      /\ UNCHANGED <<dbs, cks, hs, refs, ret, files>>
Drop == /\ Is("Drop") /\ ret' = ret \cap RangeOf(E.keep)
        /\ UNCHANGED <<dbs, cks, hs, refs, files>>
Dropped == /\ Is("Dropped") /\ Fine /\ UNCHANGED <<dbs, cks, hs, refs, ret, files>>
IsLog(f) == LET n == Len(f) IN n > 4 /\ SubSeq(f, n - 3, n) = ".wal"
Needed == UNION {refs[h] : h \in ret \cap DOMAIN refs}
Files == /\ Is("Files")
         /\ Needed \subseteq RangeOf(E.files)
         /\ files' = files \cup RangeOf(E.gone)
         /\ \A h \in files' \cap DOMAIN refs : \A f \in refs[h] : IsLog(f) /\ f \in RangeOf(E.files) => f \in Needed
         /\ UNCHANGED <<dbs, cks, hs, refs, ret>>
Next == Begin \/ Open \/ DoPut \/ DoDel \/ Get \/ Scan \/ Ckpt \/ Done \/ Peek \/ Refs \/ Rm \/ Drop \/ Dropped \/ Files
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
