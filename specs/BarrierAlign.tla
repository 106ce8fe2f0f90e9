----------------------------- MODULE BarrierAlign -----------------------------
(* Several source runners deliver their streams to one operator, each its own *)
(* events in order and one call at a time.  The call looks at the checkpoint  *)
(* being aligned, waits if the sender already delivered its barrier, and then *)
(* hands its event to the single goroutine that changes state.  That          *)
(* goroutine batches events, flushes a full or timed-out batch to the         *)
(* handler, and at the last barrier flushes and takes the checkpoint.         *)
(* workers/operator/operator.go HandleEvent, handleCheckpointBarrier,         *)
(* processEventBatch, workers/operator/checkpoint.go                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Senders, MaxLen, Barriers, BatchSize,
  Flush,  \* flush before the checkpoint is taken
  Wait    \* senders wait for alignment
VARIABLES
  script,  \* sender -> its stream of items: 0 an event, n > 0 barrier n
  pos,     \* sender -> items delivered
  call,    \* sender -> "no", "go" (past the gate), or the number of the gate it waits at
  missing, \* senders whose barrier is missing; open: a checkpoint is being aligned
  open,
  gates,   \* every checkpoint has its own gate: how many have opened
  batch, applied,
  step,    \* what the goroutine is doing: "idle", "flush", "take"
  taken    \* checkpoint -> applied events in it
vars == <<script, pos, call, missing, open, gates, batch, applied, step, taken>>
\* all streams with barriers 1..Barriers in order and at most MaxLen events
Counts == [1..Barriers + 1 -> 0..MaxLen]
RECURSIVE Stream(_, _)
Zeros(n) == [i \in 1..n |-> 0]
Stream(c, i) == IF i > Barriers THEN Zeros(c[i]) ELSE Zeros(c[i]) \o <<i>> \o Stream(c, i + 1)
RECURSIVE Sum(_, _)
Sum(c, i) == IF i > Barriers + 1 THEN 0 ELSE c[i] + Sum(c, i + 1)
Streams == {Stream(c, 1) : c \in {x \in Counts : Sum(x, 1) <= MaxLen}}
Init ==
  /\ script \in [Senders -> Streams]
  /\ pos = [s \in Senders |-> 0] /\ call = [s \in Senders |-> "no"]
  /\ missing = {} /\ open = FALSE /\ gates = 0 /\ batch = {} /\ applied = {} /\ step = "idle"
  /\ taken = <<>>
Item(s) == script[s][pos[s] + 1]
\* a call begins: the checkpoint is looked at while it isn't being changed
Begin(s) ==
  /\ call[s] = "no" /\ pos[s] < Len(script[s]) /\ step = "idle"
  /\ call' = [call EXCEPT ![s] = IF Wait /\ open /\ s \notin missing THEN ToString(Len(taken) + 1) ELSE "go"]
  /\ UNCHANGED <<script, pos, missing, open, gates, batch, applied, step, taken>>
Pass(s) == /\ (\E n \in 1..gates : call[s] = ToString(n)) /\ call' = [call EXCEPT ![s] = "go"]
           /\ UNCHANGED <<script, pos, missing, open, gates, batch, applied, step, taken>>
DoEvent(s) ==
  /\ call[s] = "go" /\ step = "idle" /\ Item(s) = 0
  /\ LET b == batch \cup {<<s, pos[s] + 1>>} IN
     IF Cardinality(b) >= BatchSize THEN batch' = {} /\ applied' = applied \cup b ELSE batch' = b /\ applied' = applied
  /\ pos' = [pos EXCEPT ![s] = @ + 1] /\ call' = [call EXCEPT ![s] = "no"]
  /\ UNCHANGED <<script, missing, open, gates, step, taken>>
DoBarrier(s) ==
  /\ call[s] = "go" /\ step = "idle" /\ Item(s) > 0
  /\ LET m == (IF open THEN missing ELSE Senders) \ {s} IN
     /\ missing' = m /\ open' = TRUE
     /\ gates' = IF m = {} THEN gates + 1 ELSE gates
     /\ IF m = {} THEN step' = (IF Flush THEN "flush" ELSE "take") /\ UNCHANGED <<pos, call>>
        ELSE step' = step /\ pos' = [pos EXCEPT ![s] = @ + 1] /\ call' = [call EXCEPT ![s] = "no"]
  /\ UNCHANGED <<script, batch, applied, taken>>
DoFlush == /\ step = "flush" /\ step' = "take" /\ applied' = applied \cup batch /\ batch' = {}
           /\ UNCHANGED <<script, pos, call, missing, open, gates, taken>>
\* the call that delivered the last barrier returns
DoTake == /\ step = "take" /\ step' = "idle" /\ taken' = Append(taken, applied) /\ open' = FALSE
          /\ \E s \in Senders : /\ call[s] = "go" /\ Item(s) = Len(taken) + 1
                                /\ pos' = [pos EXCEPT ![s] = @ + 1] /\ call' = [call EXCEPT ![s] = "no"]
          /\ UNCHANGED <<script, missing, gates, batch, applied>>
TimeOut == /\ step = "idle" /\ batch # {} /\ applied' = applied \cup batch /\ batch' = {}
           /\ UNCHANGED <<script, pos, call, missing, open, gates, step, taken>>
Next == (\E s \in Senders : Begin(s) \/ Pass(s) \/ DoEvent(s) \/ DoBarrier(s)) \/ DoFlush \/ DoTake \/ TimeOut
BASpec == Init /\ [][Next]_vars /\ WF_vars(Next)

At(s, n) == CHOOSE i \in 1..Len(script[s]) : script[s][i] = n
\* checkpoint n holds exactly what every sender delivered before its barrier n
Cut == \A n \in 1..Len(taken) :
         taken[n] = UNION {{<<s, i>> : i \in {j \in 1..At(s, n) : script[s][j] = 0}} : s \in Senders}
\* nothing a sender delivers after its barrier n is applied before checkpoint n is taken
Held == \A e \in applied : \A n \in 1..Barriers : n > Len(taken) => e[2] < At(e[1], n)
AllTaken == <>(Len(taken) = Barriers /\ \A s \in Senders : pos[s] = Len(script[s]))
=============================================================================
