---------------------------- MODULE ParallelFor ----------------------------
(* Abstract, user-visible behaviour of hwy::ThreadPool (properties P01-P03):
   a pool is opened, runs parallel-for calls one after the other, may change
   its wait mode between calls, and is closed.  One action per API-level event. *)
EXTENDS Integers, FiniteSets

VARIABLES
  status,   \* "none" | "opening" | "idle" | "running" | "switching" | "closing" | "gone"
  nw,       \* number of workers (0 before the pool is open)
  todo,     \* tasks of the current call that have not been started
  busy      \* [worker index -> task it is executing, or NoTask]

pvars == <<status, nw, todo, busy>>

NoTask == -1
Idle(w) == [x \in 0..(w-1) |-> NoTask]

Init == status = "none" /\ nw = 0 /\ todo = {} /\ busy = << >>

Opening == status = "none" /\ status' = "opening" /\ UNCHANGED <<nw, todo, busy>>

\* A pool with t extra threads reports t+1 workers, at most MaxW.
Opened(t, w, MaxW) ==
  /\ status = "opening"
  /\ w = (IF t + 1 > MaxW THEN MaxW ELSE t + 1)
  /\ status' = "idle" /\ nw' = w /\ todo' = {} /\ busy' = Idle(w)

Run(n) ==
  /\ status = "idle"
  /\ status' = "running" /\ todo' = 0..(n-1)
  /\ UNCHANGED <<nw, busy>>

\* P01: only tasks of the range, each started once.  P02: worker index in range and exclusive.
Start(t, w) ==
  /\ status = "running"
  /\ t \in todo
  /\ w \in 0..(nw-1)
  /\ busy[w] = NoTask
  /\ todo' = todo \ {t}
  /\ busy' = [busy EXCEPT ![w] = t]
  /\ UNCHANGED <<status, nw>>

End(t, w) ==
  /\ status = "running"
  /\ w \in 0..(nw-1) /\ busy[w] = t
  /\ busy' = [busy EXCEPT ![w] = NoTask]
  /\ UNCHANGED <<status, nw, todo>>

\* P01: returns only after every task has been executed completely.
Return ==
  /\ status = "running"
  /\ todo = {}
  /\ \A w \in 0..(nw-1) : busy[w] = NoTask
  /\ status' = "idle"
  /\ UNCHANGED <<nw, todo, busy>>

Mode  == status = "idle" /\ status' = "switching" /\ UNCHANGED <<nw, todo, busy>>
Moded == status = "switching" /\ status' = "idle" /\ UNCHANGED <<nw, todo, busy>>
Close == status = "idle" /\ status' = "closing" /\ UNCHANGED <<nw, todo, busy>>
\* P03: no thread of the pool survives its destruction.
Closed(live) == status = "closing" /\ live = 0 /\ status' = "gone" /\ UNCHANGED <<nw, todo, busy>>

Inv ==
  /\ status \in {"none", "opening", "idle", "running", "switching", "closing", "gone"}
  /\ (status # "running" /\ nw > 0) => /\ todo = {}
                                       /\ \A w \in 0..(nw-1) : busy[w] = NoTask
=============================================================================
