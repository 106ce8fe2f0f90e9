---------------------------- MODULE SnapshotStore ----------------------------
(* Design of the job's snapshot store: checkpoints in progress, publication in *)
(* the background, cleanup, announcements, crashes, restarts and savepoints    *)
(* (storage/snapshots/*.go, jobs/job.go).  Conformance: SnapshotTrace.tla.     *)
(* The constants switch off what keeps the store right; TLC finds a violation  *)
(* for each of them being FALSE.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Nodes, MaxId, MaxCrash, MaxAsm,
  Chain,      \* publications wait for the previous one
  Highest,    \* restart picks the highest id, not the first listed
  Dedupe,     \* a repeated acknowledgement adds nothing
  Atomic,     \* a crash leaves no partial snapshot file
  CheckId,    \* acknowledgements must name the checkpoint in progress
  CheckNode,  \* ... and come from a member it was created for
  NotifyNow,  \* announcements carry what is current when they are sent
  Clear,      \* a new assembly drops the checkpoint in progress
  Await,      \* ... and waits for publications before reading the current one
  PastSp      \* ids after a savepoint start are past all in storage
VARIABLES
  asm,        \* assembly number; its members are <<asm, node>>
  lastId,     \* counter of this incarnation
  pend,       \* [id, need, acks (sequence), sp] or NoPend
  queue,      \* snapshots finished, being published: sequence of [id, need, acks, sp]
  completed,  \* in memory: the completed snapshot's id (0: none)
  files,      \* snapshot files in storage
  partial,    \* ... cut off by a crash
  removing,   \* removal tasks: sets of ids
  notes,      \* announcements under way
  announced,  \* announcements received by the operators, of this incarnation
  done,       \* id -> what was published
  msgs,       \* acknowledgements ever sent (may be delivered late, twice, never)
  sps,        \* ids of complete savepoints
  opened,     \* checkpoint the operators of the current assembly were opened from
  crashes, crashed
vars == <<asm, lastId, pend, queue, completed, files, partial, removing, notes, announced, done, msgs, sps, opened, crashes, crashed>>
NoPend == [id |-> 0, need |-> {}, acks |-> <<>>, sp |-> FALSE]
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Elems(s) == {s[i] : i \in 1..Len(s)}
Members == {<<asm, n>> : n \in Nodes}
\* names whose listing order isn't the order of the ids
ListedFirst(s) == CHOOSE x \in s : \A y \in s : (x * 2) % 5 <= (y * 2) % 5
Init == /\ asm = 1 /\ lastId = 0 /\ pend = NoPend /\ queue = <<>> /\ completed = 0 /\ files = {} /\ partial = {}
        /\ removing = {} /\ notes = {} /\ announced = <<>> /\ done = <<>> /\ msgs = {} /\ sps = {} /\ opened = 0
        /\ crashes = 0 /\ crashed = FALSE
Up == ~crashed
----
Start(sp) ==
  /\ Up /\ lastId < MaxId
  /\ IF pend.id = 0
     THEN pend' = [id |-> lastId + 1, need |-> Members, acks |-> <<>>, sp |-> sp] /\ lastId' = lastId + 1
     ELSE sp /\ ~pend.sp /\ pend' = [pend EXCEPT !.sp = TRUE] /\ lastId' = lastId
  /\ UNCHANGED <<asm, queue, completed, files, partial, removing, notes, announced, done, msgs, sps, opened, crashes, crashed>>
\* a member acknowledges (any checkpoint it has heard of)
Send(n) ==
  /\ Up /\ pend.id # 0 /\ n \in pend.need /\ n[1] = asm
  /\ [id |-> pend.id, from |-> n] \notin msgs
  /\ msgs' = msgs \cup {[id |-> pend.id, from |-> n]}
  /\ UNCHANGED <<asm, lastId, pend, queue, completed, files, partial, removing, notes, announced, done, sps, opened, crashes, crashed>>
Deliver(m) ==
  /\ Up /\ pend.id # 0 /\ m \in msgs
  /\ CheckId => m.id = pend.id
  /\ CheckNode => m.from \in pend.need
  /\ Dedupe => m.from \notin Elems(pend.acks)
  /\ Len(pend.acks) <= Cardinality(Nodes)
  /\ LET p == [pend EXCEPT !.acks = Append(@, m.from)]
         full == IF CheckNode THEN p.need \subseteq Elems(p.acks) ELSE Cardinality(Elems(p.acks)) >= Cardinality(p.need)
     IN IF full THEN queue' = Append(queue, p) /\ pend' = NoPend
        ELSE pend' = p /\ queue' = queue
  /\ UNCHANGED <<asm, lastId, completed, files, partial, removing, notes, announced, done, msgs, sps, opened, crashes, crashed>>
----
Drop(i) == [j \in 1..(Len(queue) - 1) |-> IF j < i THEN queue[j] ELSE queue[j + 1]]
\* the file is written, the previous one becomes obsolete
Publish(i) ==
  /\ Up /\ i \in 1..Len(queue) /\ (Chain => i = 1)
  /\ LET p == queue[i] IN
     /\ files' = files \cup {p.id} /\ done' = (p.id :> p) @@ done
     /\ completed' = p.id
     /\ IF completed = 0 THEN removing' = removing /\ notes' = notes
        ELSE removing' = removing \cup {completed} /\ notes' = notes \cup {p.id}
     /\ sps' = IF p.sp THEN sps \cup {p.id} ELSE sps
     /\ queue' = Drop(i)
  /\ UNCHANGED <<asm, lastId, pend, partial, announced, msgs, opened, crashes, crashed>>
\* a write fails: the checkpoint is lost
Fail(i) ==
  /\ Up /\ i \in 1..Len(queue) /\ (Chain => i = 1) /\ queue' = Drop(i)
  /\ UNCHANGED <<asm, lastId, pend, completed, files, partial, removing, notes, announced, done, msgs, sps, opened, crashes, crashed>>
Remove(x) ==
  /\ Up /\ x \in removing /\ removing' = removing \ {x} /\ files' = files \ {x}
  /\ UNCHANGED <<asm, lastId, pend, queue, completed, partial, notes, announced, done, msgs, sps, opened, crashes, crashed>>
Notify(x) ==
  /\ Up /\ x \in notes /\ notes' = notes \ {x}
  /\ announced' = Append(announced, IF NotifyNow THEN completed ELSE x)
  /\ UNCHANGED <<asm, lastId, pend, queue, completed, files, partial, removing, done, msgs, sps, opened, crashes, crashed>>
----
\* the members change: everything is deployed again from the current checkpoint
Reassemble ==
  /\ Up /\ asm < MaxAsm /\ (Await => queue = <<>>)
  /\ asm' = asm + 1 /\ pend' = (IF Clear THEN NoPend ELSE pend) /\ opened' = completed
  /\ UNCHANGED <<lastId, queue, completed, files, partial, removing, notes, announced, done, msgs, sps, crashes, crashed>>
Crash ==
  /\ Up /\ crashes < MaxCrash /\ crashed' = TRUE /\ crashes' = crashes + 1
  \* the write, or a removal, may just have taken effect - or half of it
  /\ \/ UNCHANGED <<files, partial, done, sps>>
     \/ \E i \in 1..Len(queue) : (Chain => i = 1) /\ files' = files \cup {queue[i].id} /\ done' = (queue[i].id :> queue[i]) @@ done /\ UNCHANGED <<partial, sps>>
     \/ ~Atomic /\ \E i \in 1..Len(queue) : (Chain => i = 1) /\ partial' = partial \cup {queue[i].id} /\ UNCHANGED <<files, done, sps>>
     \/ \E x \in removing : files' = files \ {x} /\ UNCHANGED <<partial, done, sps>>
  /\ pend' = NoPend /\ queue' = <<>> /\ removing' = {} /\ notes' = {} /\ announced' = <<>> /\ completed' = 0 /\ lastId' = 0 /\ opened' = 0
  /\ UNCHANGED <<asm, msgs>>
Listed == files \cup partial
Restart ==
  /\ crashed /\ crashed' = FALSE /\ asm' = asm + 1
  /\ completed' = (IF Listed = {} THEN 0 ELSE IF Highest THEN Max(Listed) ELSE ListedFirst(Listed))
  /\ lastId' = completed' /\ opened' = completed'
  /\ UNCHANGED <<pend, queue, files, partial, removing, notes, announced, done, msgs, sps, crashes>>
RestartSp(x) ==
  /\ crashed /\ x \in sps /\ crashed' = FALSE /\ asm' = asm + 1
  /\ completed' = x /\ opened' = x /\ lastId' = (IF PastSp THEN Max(Listed \cup {x}) ELSE x)
  /\ UNCHANGED <<pend, queue, files, partial, removing, notes, announced, done, msgs, sps, crashes>>
Next == \/ \E sp \in BOOLEAN : Start(sp)
        \/ \E n \in Members : Send(n)
        \/ \E m \in msgs : Deliver(m)
        \/ \E i \in 1..Len(queue) : Publish(i) \/ Fail(i)
        \/ \E x \in removing : Remove(x)
        \/ \E x \in notes : Notify(x)
        \/ Reassemble \/ Crash \/ Restart \/ \E x \in sps : RestartSp(x)
Fairness == /\ WF_vars(\E n \in Members : Send(n)) /\ WF_vars(\E m \in msgs : Deliver(m)) /\ WF_vars(\E i \in 1..Len(queue) : Publish(i))
            /\ WF_vars(\E x \in removing : Remove(x)) /\ WF_vars(\E x \in notes : Notify(x)) /\ WF_vars(Restart)
Spec == Init /\ [][Next]_vars /\ Fairness
----
\* C12: published means acknowledged, once, by every member it was created for
Whole == \A i \in DOMAIN done : Elems(done[i].acks) = done[i].need /\ Len(done[i].acks) = Cardinality(done[i].need)
                                /\ \A n \in done[i].need : [id |-> i, from |-> n] \in msgs
\* the checkpoint in progress is the current assembly's
Own == Up /\ pend.id # 0 => pend.need = Members
IdsGrow == [][(pend'.id # 0 /\ pend'.id # pend.id) => \A x \in Listed \cup DOMAIN done : x <= lastId => pend'.id > x]_vars
FreshId == [][(pend'.id # 0 /\ pend'.id # pend.id) => \A x \in Listed : pend'.id > x]_vars
\* C13: the newest is kept and used
Newest == {Max(files)}
KeepNewest == [][files # {} /\ files' # {} => Max(files') >= Max(files)]_vars
NeverEmpty == [][files # {} => files' # {}]_vars
LoadNewest == [][crashed /\ ~crashed' => (completed' \in sps \/ (files = {} /\ completed' = 0) \/ (files # {} /\ completed' = Max(files)))]_vars
Monotone == \A i \in 1..(Len(announced) - 1) : announced[i] <= announced[i + 1]
CurrentGrows == [][Up /\ ~crashed' => completed' >= completed]_vars
\* what the operators are told to keep is something they have: opened from it, or took it
TheyHaveIt == \A i \in 1..Len(announced) : announced[i] # 0
InTheAssembly == [][Len(announced') > Len(announced) /\ completed # 0 =>
                     (announced'[Len(announced')] = opened \/ \E n \in done[announced'[Len(announced')]].need : n[1] = asm)]_vars
\* C14: a savepoint is of a whole checkpoint
SpWhole == sps \subseteq DOMAIN done
Quiet == Up /\ queue = <<>> /\ notes = {} /\ removing = {} /\ announced # <<>>
QuietNewest == Quiet => announced[Len(announced)] = completed
\* completes: unless the job is interrupted, a checkpoint once begun is over some time
Completes == (Up /\ pend.id # 0) ~> (pend.id = 0 \/ crashed)
Recovers == crashed ~> ~crashed
==============================================================================
