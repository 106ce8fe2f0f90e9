-------------------------- MODULE PartitioningTrace --------------------------
(* What the real key space, source runners and operators did with keys.      *)
EXTENDS Partitioning, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg,
  sent,    \* keys given to the source runner / operator, in order
  seen     \* keys that arrived at an operator
vars == <<l, cfg, sent, seen>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
Init == l = 1 /\ cfg = [g |-> 1, n |-> 1] /\ sent = <<>> /\ seen = {}
Begin == Is("Begin") /\ cfg' = [g |-> E.g, n |-> E.n] /\ sent' = <<>> /\ seen' = {}
\* KeySpace.KeyGroupRanges
Space == /\ Is("Space") /\ Fine
         /\ Len(E.ranges) = E.n
         /\ \A i \in 1..E.n : E.ranges[i] = <<Start(i - 1, E.g, E.n), End(i - 1, E.g, E.n)>>
         /\ UNCHANGED <<cfg, sent, seen>>
Hash == Is("Hash") /\ Fine /\ E.h = Murmur(E.key) /\ UNCHANGED <<cfg, sent, seen>>
\* KeySpace.KeyGroup / RangeIndex
Route == /\ Is("Route") /\ Fine
         /\ LET kg == KeyGroup(E.key, E.g) IN E.group = kg /\ E.index = Owner(kg, E.g, E.n)
         /\ UNCHANGED <<cfg, sent, seen>>
\* KeyGroupRange.IncludesKeyGroup / IndexOf of every operator's range for one group
Member == /\ Is("Member") /\ Fine
          /\ LET o == Owner(E.group, E.g, E.n) IN
             /\ E.in = <<o>>
             /\ E.at = E.group - Start(o, E.g, E.n)
          /\ UNCHANGED <<cfg, sent, seen>>
\* the two byte form
Bytes == /\ Is("Bytes") /\ Fine /\ E.bytes = <<E.group \div 256, E.group % 256>> /\ E.back = E.group
         /\ UNCHANGED <<cfg, sent, seen>>
\* a real source runner: records in, keyed events out at operator E.op
Sent == Is("Sent") /\ sent' = Append(sent, E.key) /\ UNCHANGED <<cfg, seen>>
Arrived == /\ Is("Arrived")
           /\ E.id \in 1..Len(sent) /\ sent[E.id] = E.key /\ E.id \notin seen
           /\ E.op = Owner(KeyGroup(E.key, cfg.g), cfg.g, cfg.n)
           /\ seen' = seen \cup {E.id} /\ UNCHANGED <<cfg, sent>>
AllArrived == /\ Is("AllArrived") /\ seen = 1..Len(sent) /\ UNCHANGED <<cfg, sent, seen>>
\* the entries in the DKV checkpoint of operator E.op, one <<first two bytes, writing key>> for each;
\* timers carry no value, so the writer is only known as one of the sent keys
Persisted == /\ Is("Persisted") /\ Fine
             /\ LET own == {i \in 1..Len(sent) : Owner(KeyGroup(sent[i], cfg.g), cfg.g, cfg.n) = E.op}
                    groups == {KeyGroup(sent[i], cfg.g) : i \in own} IN
                /\ \A e \in 1..Len(E.state) :
                     LET en == E.state[e] IN
                     /\ en.key \in {sent[i] : i \in own}
                     /\ en.prefix = KeyGroup(en.key, cfg.g)
                /\ {sent[i] : i \in own} = {E.state[e].key : e \in 1..Len(E.state)}
                /\ {E.timers[e] : e \in 1..Len(E.timers)} = groups
             /\ UNCHANGED <<cfg, sent, seen>>
\* OwnsKey of a raw database key
Owns == /\ Is("Owns") /\ Fine /\ E.res = (Owner(KeyGroup(E.key, cfg.g), cfg.g, cfg.n) = E.op)
        /\ UNCHANGED <<cfg, sent, seen>>
\* AssignRanges: every range gets exactly the checkpoints that hold some of its key groups, each once
\* (ranges without key groups may be given anything or nothing)
Empty(r) == r[1] >= r[2]
Assign == /\ Is("Assign") /\ Fine /\ Len(E.out) = Len(E.to)
          /\ (\A i \in 1..Len(E.to) :
                LET got == ToSet(E.out[i]) IN
                /\ Cardinality(got) = Len(E.out[i]) /\ got \subseteq 0..(Len(E.from) - 1)
                /\ \A j \in 1..Len(E.from) :
                     ~Empty(E.to[i]) /\ ~Empty(E.from[j]) => ((j - 1) \in got <=> Overlaps(E.to[i], E.from[j]))) = TRUE
          /\ UNCHANGED <<cfg, sent, seen>>
Next == Assign \/ Begin \/ Space \/ Hash \/ Route \/ Member \/ Bytes \/ Sent \/ Arrived \/ AllArrived \/ Persisted \/ Owns
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
