------------------------------ MODULE Batching ------------------------------
(* Event batching and ordered asynchronous fetching (C20; used by C04).      *)
(*                                                                           *)
(* Part 1 is the algorithm: an adder that flushes full batches, a timeout    *)
(* goroutine that flushes batches whose timer fired, a reorder buffer with   *)
(* Buf slots, asynchronous fetches finishing in any order.  Atomic = TRUE    *)
(* models Flush+Reserve under one lock; FALSE lets another flusher in        *)
(* between (kept to show that TLC then finds the reordering).                *)
(* Part 2 is what may be observed from outside; BatchingTrace replays        *)
(* recorded executions of the real code against it.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Max, Buf, Atomic

Items == 1..N
Flushers == {"adder", "timer"}
VARIABLES
  added,    \* how many of the items 1..N were added
  cur,      \* current batch
  token,    \* index of the current batch
  armed,    \* timer tokens armed or in flight
  pend,     \* flusher -> "idle" | token it wants to flush
  held,     \* flusher -> batch taken, not yet given a place
  lock,     \* who holds the flush lock
  places,   \* reorder buffer: sequence of batches in order of reservation
  fetched,  \* places whose fetch finished
  drained,  \* number of places released
  out       \* results emitted
bvars == <<added, cur, token, armed, pend, held, lock, places, fetched, drained, out>>

BInit == /\ added = 0 /\ cur = <<>> /\ token = 0 /\ armed = {} /\ lock = "none"
         /\ pend = [f \in Flushers |-> -2] /\ held = [f \in Flushers |-> <<>>]
         /\ places = <<>> /\ fetched = {} /\ drained = 0 /\ out = <<>>
Idle(f) == pend[f] = -2
Current == -1
AddItem == /\ added < N /\ Idle("adder")
           /\ added' = added + 1
           /\ cur' = Append(cur, added + 1)
           /\ armed' = IF cur = <<>> THEN armed \cup {token} ELSE armed
           /\ pend' = IF Len(cur') >= Max THEN [pend EXCEPT !["adder"] = Current] ELSE pend
           /\ UNCHANGED <<token, held, lock, places, fetched, drained, out>>
ExplicitFlush == /\ Idle("adder") /\ cur # <<>> /\ pend' = [pend EXCEPT !["adder"] = Current]
                 /\ UNCHANGED <<added, cur, token, armed, held, lock, places, fetched, drained, out>>
TimerFires == /\ Idle("timer") /\ \E t \in armed :
                    /\ armed' = armed \ {t}
                    /\ pend' = [pend EXCEPT !["timer"] = t]
              /\ UNCHANGED <<added, cur, token, held, lock, places, fetched, drained, out>>
Take(f) == /\ ~Idle(f) /\ held[f] = <<>>
           /\ IF Atomic THEN lock = "none" ELSE TRUE
           /\ IF cur = <<>> \/ (pend[f] # Current /\ pend[f] # token)
              THEN /\ pend' = [pend EXCEPT ![f] = -2]
                   /\ UNCHANGED <<cur, token, held, lock>>
              ELSE /\ held' = [held EXCEPT ![f] = cur] /\ cur' = <<>> /\ token' = token + 1
                   /\ lock' = IF Atomic THEN f ELSE lock
                   /\ UNCHANGED pend
           /\ UNCHANGED <<added, armed, places, fetched, drained, out>>
Reserve(f) == /\ held[f] # <<>> /\ Len(places) - drained < Buf
              /\ places' = Append(places, held[f])
              /\ held' = [held EXCEPT ![f] = <<>>]
              /\ pend' = [pend EXCEPT ![f] = -2]
              /\ lock' = IF lock = f THEN "none" ELSE lock
              /\ UNCHANGED <<added, cur, token, armed, fetched, drained, out>>
FetchDone == \E i \in 1..Len(places) :
               /\ i \notin fetched /\ fetched' = fetched \cup {i}
               /\ UNCHANGED <<added, cur, token, armed, pend, held, lock, places, drained, out>>
Drain == /\ drained + 1 \in fetched
         /\ out' = out \o places[drained + 1] /\ drained' = drained + 1
         /\ UNCHANGED <<added, cur, token, armed, pend, held, lock, places, fetched>>
BNext == AddItem \/ ExplicitFlush \/ TimerFires \/ FetchDone \/ Drain \/ \E f \in Flushers : Take(f) \/ Reserve(f)
BSpec == BInit /\ [][BNext]_bvars
         /\ WF_bvars(AddItem) /\ WF_bvars(ExplicitFlush) /\ WF_bvars(FetchDone) /\ WF_bvars(Drain)
         /\ \A f \in Flushers : SF_bvars(Take(f)) /\ SF_bvars(Reserve(f))

InOrder == \A i \in 1..Len(out) : out[i] = i
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* nothing lost: everything added is in some place, some hand or the current batch
Conserved == added = Len(Flat(places)) + Len(held["adder"]) + Len(held["timer"]) + Len(cur)
AllOut == <>(Len(out) = N)
=============================================================================
