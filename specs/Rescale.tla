------------------------------- MODULE Rescale -------------------------------
(* Databases of operators across deployments: every operator keeps versions   *)
(* of the keys it owns in memory (and the WAL) and in tables; a checkpoint    *)
(* names the tables and the WAL; a deployment gives every operator the        *)
(* checkpoints whose key groups overlap its own, merges their tables (which   *)
(* may hold keys it doesn't own), replays those WAL entries it owns and       *)
(* numbers its writes above everything loaded.  Checks that the newest        *)
(* version by sequence number stays the right one along any chain of          *)
(* deployments.  dkv/db.go Start, dkv/recovery LoadCheckpointList,            *)
(* partitioning AssignRanges, workers/operator OwnsKey                        *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS MaxVal, Keys,  \* a key is its own key group, 0..Groups - 1
  Groups, MaxOps, MaxSeq, MaxDeploys,
  Filter,            \* WAL entries are filtered by ownership
  Raise,             \* sequence numbers continue above those loaded
  KeepTombs          \* deletes stay until nothing older is beneath
VARIABLES ops,    \* number of operators
  mem, tab, seq,  \* operator -> versions <<key, seq, value>> in memory, in tables; last number used
  truth,          \* key -> value, 0: none
  ckpt,           \* the last checkpoint: set of [rng, mem, tab], and the truth at it
  deploys
vars == <<ops, mem, tab, seq, truth, ckpt, deploys>>
Vals == 0..MaxVal \* 0: a delete
Start(n, i) == ((i - 1) * Groups) \div n
Owned(n, i) == {k \in Keys : Start(n, i) <= k /\ k < Start(n, i + 1)}
Owner(k) == CHOOSE i \in 1..ops : k \in Owned(ops, i)
Newest(vs, k) == LET x == {v \in vs : v[1] = k} IN
  IF x = {} THEN 0 ELSE (CHOOSE v \in x : \A w \in x : v[2] >= w[2])[3]
Max0(s) == IF s = {} THEN 0 ELSE CHOOSE n \in s : \A o \in s : n >= o
Init == /\ ops \in 1..MaxOps /\ mem = [i \in 1..ops |-> {}] /\ tab = mem /\ seq = [i \in 1..ops |-> 0]
        /\ truth = [k \in Keys |-> 0] /\ ckpt = [cks |-> {}, truth |-> [k \in Keys |-> 0]] /\ deploys = 0
Write(k, v) == LET i == Owner(k) IN
  /\ seq[i] < MaxSeq
  /\ mem' = [mem EXCEPT ![i] = {x \in @ : x[1] # k} \cup {<<k, seq[i] + 1, v>>}]
  /\ seq' = [seq EXCEPT ![i] = @ + 1] /\ truth' = [truth EXCEPT ![k] = v]
  /\ UNCHANGED <<ops, tab, ckpt, deploys>>
FlushMem(i) == /\ mem[i] # {} /\ tab' = [tab EXCEPT ![i] = @ \cup mem[i]] /\ mem' = [mem EXCEPT ![i] = {}]
               /\ UNCHANGED <<ops, seq, truth, ckpt, deploys>>
\* compaction keeps the newest version of every key (deletes too unless ~KeepTombs), owned or not
Compact(i) == /\ tab[i] # {}
              /\ LET new == {x \in tab[i] : \A y \in tab[i] : x[1] = y[1] => x[2] >= y[2]}
                 IN tab' = [tab EXCEPT ![i] = IF KeepTombs THEN new ELSE {x \in new : x[3] # 0}]
              /\ tab' # tab
              /\ UNCHANGED <<ops, mem, seq, truth, ckpt, deploys>>
Checkpoint == /\ ckpt' = [cks |-> {[own |-> Owned(ops, i), mem |-> mem[i], tab |-> tab[i]] : i \in 1..ops}, truth |-> truth]
              /\ UNCHANGED <<ops, mem, tab, seq, truth, deploys>>
Deploy(n) ==
  /\ deploys < MaxDeploys /\ deploys' = deploys + 1 /\ ops' = n
  /\ LET mine(i) == {c \in ckpt.cks : c.own \cap Owned(n, i) # {}} IN
     /\ tab' = [i \in 1..n |-> UNION {c.tab : c \in mine(i)}]
     /\ mem' = [i \in 1..n |-> {x \in UNION {c.mem : c \in mine(i)} : Filter => x[1] \in Owned(n, i)}]
     /\ seq' = [i \in 1..n |-> IF Raise THEN Max0({x[2] : x \in UNION {c.tab \cup c.mem : c \in mine(i)}}) ELSE 0]
  /\ truth' = ckpt.truth /\ UNCHANGED ckpt
Next == \/ \E k \in Keys, v \in Vals : Write(k, v)
        \/ \E i \in 1..ops : FlushMem(i) \/ Compact(i)
        \/ Checkpoint \/ \E n \in 1..MaxOps : Deploy(n)
RSpec == Init /\ [][Next]_vars
Right == \A k \in Keys : Newest(mem[Owner(k)] \cup tab[Owner(k)], k) = truth[k]
\* every key has one owner
Exclusive == \A k \in Keys : Cardinality({i \in 1..ops : k \in Owned(ops, i)}) = 1
\* versions of a key never share a number, unless they are the same
Unique == \A i \in 1..ops : \A x, y \in mem[i] \cup tab[i] : (x[1] = y[1] /\ x[2] = y[2]) => x = y
=============================================================================
