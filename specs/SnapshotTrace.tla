---------------------------- MODULE SnapshotTrace ----------------------------
(* The snapshot store as its users see it: checkpoints are begun, acknowledged,*)
(* published, made obsolete and announced; the job dies and starts again from  *)
(* storage or from a savepoint; the databases restored hold what the published *)
(* checkpoint cut.  storage/snapshots, dkv/recovery/list_files.go,              *)
(* storage/locations.  Properties C12, C13, C14 (design: SnapshotStore.tla)      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  mode,
  stored,   \* ids of the job snapshots in storage
  pub,      \* id -> content it was published with
  pend,     \* the checkpoint in progress (id -1: none)
  pubs,     \* completed ones, not yet published
  last,     \* greatest id of this incarnation, or loaded
  handed,   \* greatest id ever handed out
  loaded,   \* id this incarnation started from, -1: none
  cur,      \* the current checkpoint last seen
  notified, \* greatest id announced as the one to keep, -1: none
  spl,      \* states the splitter reported
  kv, cuts, \* databases: <<operator, key, value>>; id -> what the barriers cut
  saved     \* id -> [c: content, kv: cut] of complete savepoints
vars == <<l, mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
SetOf(s) == {s[i] : i \in 1..Len(s)}
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
None == [id |-> -1, ops |-> {}, srs |-> {}, opA |-> {}, srA |-> {}, sp |-> FALSE, from |-> 0]
Empty == [ops |-> {}, n |-> 0, splits |-> {}, m |-> 0, st |-> ""]
Content == [ops |-> SetOf(E.ops), n |-> Len(E.ops), splits |-> SetOf(E.splits), m |-> Len(E.splits), st |-> E.st]
NewestStored == Max(stored \cup {loaded})
PubOf(id) == IF id \in DOMAIN pub THEN pub[id] ELSE Empty
CutOf(id) == IF id \in DOMAIN cuts THEN cuts[id] ELSE {}
Init == l = 1 /\ mode = "" /\ stored = {} /\ pub = <<>> /\ pend = None /\ pubs = {} /\ last = 0 /\ handed = 0
        /\ loaded = -1 /\ cur = -1 /\ notified = -1 /\ spl = <<>> /\ kv = {} /\ cuts = <<>> /\ saved = <<>>
Begin == /\ Is("Begin") /\ mode' = E.mode
         /\ stored' = {} /\ pub' = <<>> /\ pend' = None /\ pubs' = {} /\ last' = 0 /\ handed' = 0
         /\ loaded' = -1 /\ cur' = -1 /\ notified' = -1 /\ spl' = <<>> /\ kv' = {} /\ cuts' = <<>> /\ saved' = <<>>
----
\* p's content: every operator once, every source runner's splits once, a splitter state of its time
Matches(p) ==
  /\ Len(E.ops) = Cardinality(p.ops) /\ {E.ops[i][1] : i \in 1..Len(E.ops)} = p.ops
  /\ \A i \in 1..Len(E.ops) : <<E.ops[i][1], E.ops[i][2], E.ops[i][3]>> \in p.opA
  /\ \E f \in [p.srs -> p.srA] :
       /\ \A s \in p.srs : f[s][1] = s
       /\ SetOf(E.splits) = UNION {SetOf(f[s][2]) : s \in p.srs}
       /\ Len(E.splits) = Cardinality(SetOf(E.splits))
  /\ \E i \in (p.from + 1)..Len(spl) : E.st = spl[i]
----
\* the job starts: the newest published checkpoint, or the savepoint it was told
Boot == /\ Is("Boot") /\ E.fail = ""
        /\ IF E.from THEN /\ E.id = E.sp
                          /\ Content = (IF E.id \in DOMAIN saved THEN saved[E.id].c ELSE Empty)
                          /\ (E.id \in DOMAIN saved \/ E.id = 0)
                          /\ pub' = (E.id :> Content) @@ pub
                          /\ cuts' = (E.id :> (IF E.id \in DOMAIN saved THEN saved[E.id].kv ELSE {})) @@ cuts
                          /\ stored' = stored
           \* a write cut off by the crash may or may not have taken effect
           ELSE IF \E p \in pubs : p.id = E.id /\ Matches(p) /\ \A s \in stored : s < p.id
                THEN stored' = stored \cup {E.id} /\ pub' = (E.id :> Content) @@ pub /\ cuts' = cuts
                ELSE /\ stored' = stored /\ pub' = pub /\ cuts' = cuts
                     /\ IF stored = {} THEN E.id = -1 ELSE E.id = Max(stored) /\ Content = pub[E.id]
        /\ pend' = None /\ pubs' = {} /\ spl' = <<>> /\ notified' = -1 /\ loaded' = E.id /\ cur' = E.id
        /\ last' = Max(stored' \cup {E.id, 0})
        /\ UNCHANGED <<mode, handed, kv, saved>>
Crash == /\ Is("Die") /\ pend' = None /\ UNCHANGED <<mode, stored, pub, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Wipe == /\ Is("Wipe") /\ stored' = {} /\ pubs' = {} /\ handed' = 0
        /\ UNCHANGED <<mode, pub, pend, last, loaded, cur, notified, spl, kv, cuts, saved>>
\* ---- checkpoints ----
Fresh(id) == id > last /\ (mode = "reuse" => id > handed)
New(id, sp) == /\ Fresh(id) /\ last' = id /\ handed' = Max({id, handed})
               /\ pend' = [id |-> id, ops |-> SetOf(E.ops), srs |-> SetOf(E.srs), opA |-> {}, srA |-> {}, sp |-> sp, from |-> Len(spl)]
               /\ cuts' = (id :> {}) @@ cuts
Create == /\ Is("Create") /\ E.panic = ""
          /\ IF pend.id = -1 THEN E.ok /\ New(E.id, FALSE)
             ELSE ~E.ok /\ UNCHANGED <<pend, last, handed, cuts>>
          /\ UNCHANGED <<mode, stored, pub, pubs, loaded, cur, notified, spl, kv, saved>>
Savepoint == /\ Is("Savepoint") /\ E.panic = ""
             /\ IF pend.id = -1 THEN E.ok /\ E.created /\ New(E.id, TRUE)
                ELSE /\ UNCHANGED <<last, handed, cuts>>
                     /\ IF ~E.ok THEN pend.sp /\ pend' = pend
                        ELSE ~E.created /\ E.id = pend.id /\ pend' = [pend EXCEPT !.sp = TRUE]
             /\ UNCHANGED <<mode, stored, pub, pubs, loaded, cur, notified, spl, kv, saved>>
Good(a) == /\ a.ck = pend.id /\ pend.id # -1
           /\ IF a.op THEN a.who \in pend.ops /\ \A x \in pend.opA : x[1] # a.who
                      ELSE a.who \in pend.srs /\ \A x \in pend.srA : x[1] # a.who
\* acknowledgements, of which the good ones count
Acks == /\ Is("Acks")
        /\ LET g == {a \in SetOf(E.acks) : Good(a)}
               p == [pend EXCEPT !.opA = @ \cup {<<a.who, a.lo, a.hi>> : a \in {x \in g : x.op}},
                                 !.srA = @ \cup {<<a.who, a.splits>> : a \in {x \in g : ~x.op}}]
               done == /\ p.id # -1
                       /\ \A o \in p.ops : \E x \in p.opA : x[1] = o
                       /\ \A s \in p.srs : \E x \in p.srA : x[1] = s
           IN IF done THEN pubs' = pubs \cup {p} /\ pend' = None ELSE pend' = p /\ pubs' = pubs
        /\ UNCHANGED <<mode, stored, pub, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Acked == /\ Is("Acked") /\ E.panic = "" /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Abandon == /\ Is("Abandon") /\ pend' = None
           /\ UNCHANGED <<mode, stored, pub, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Splitter == /\ Is("Splitter") /\ spl' = Append(spl, E.st)
            /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, kv, cuts, saved>>
\* ---- publication ----
Write == /\ Is("Write")
         /\ \E p \in pubs : p.id = E.id /\ Matches(p) /\ pubs' = pubs \ {p}
         /\ stored' = stored \cup {E.id} /\ pub' = (E.id :> Content) @@ pub
         /\ UNCHANGED <<mode, pend, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Fail == /\ Is("Fail") /\ \E p \in pubs : p.id = E.id /\ pubs' = pubs \ {p}
        /\ UNCHANGED <<mode, stored, pub, pend, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Remove == /\ Is("Remove") /\ SetOf(E.ids) \cap (IF stored = {} THEN {} ELSE {Max(stored)}) = {}
          /\ stored' = stored \ SetOf(E.ids)
          /\ UNCHANGED <<mode, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Retain == /\ Is("Retain") /\ E.ids # <<>> /\ SetOf(E.ids) \subseteq DOMAIN pub
          /\ Max(SetOf(E.ids)) >= notified /\ notified' = Max(SetOf(E.ids))
          /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, spl, kv, cuts, saved>>
\* what an in-process restart would use
Current == /\ Is("Current") /\ E.id >= cur /\ cur' = E.id
           /\ (E.id # -1 => Content = PubOf(E.id) /\ (E.id \in DOMAIN pub \/ E.id = 0))
           /\ (E.quiet => /\ E.id = NewestStored
                          /\ pubs = {}
                          /\ notified \in {-1, NewestStored})
           /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, notified, spl, kv, cuts, saved>>
SpDone == /\ Is("SpDone") /\ E.ok /\ E.id \in DOMAIN pub
          /\ saved' = (E.id :> [c |-> pub[E.id], kv |-> CutOf(E.id)]) @@ saved
          /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts>>
StoreError == /\ Is("StoreError") /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
\* ---- databases ----
Put == /\ Is("Put") /\ E.panic = ""
       /\ kv' = {x \in kv : ~(x[1] = E.op /\ x[2] = E.k)} \cup (IF E.v = "" THEN {} ELSE {<<E.op, E.k, E.v>>})
       /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, cuts, saved>>
Barrier == /\ Is("Barrier") /\ cuts' = [cuts EXCEPT ![E.id] = @ \cup {x \in kv : x[1] = E.op}]
           /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, saved>>
Restored == /\ Is("Restored") /\ E.id = cur
            /\ Cardinality({E.pairs[i][2] : i \in 1..Len(E.pairs)}) = Len(E.pairs)
            /\ {<<E.pairs[i][2], E.pairs[i][3]>> : i \in 1..Len(E.pairs)} = {<<x[2], x[3]>> : x \in CutOf(E.id)}
            /\ kv' = SetOf(E.pairs)
            /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, cuts, saved>>
End == Is("End") /\ UNCHANGED <<mode, stored, pub, pend, pubs, last, handed, loaded, cur, notified, spl, kv, cuts, saved>>
Next == \/ Begin \/ Boot \/ Crash \/ Wipe \/ Create \/ Savepoint \/ Acks \/ Acked \/ Abandon \/ Splitter \/ Write \/ Fail
        \/ Remove \/ Retain \/ Current \/ SpDone \/ StoreError \/ Put \/ Barrier \/ Restored \/ End
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
==============================================================================
