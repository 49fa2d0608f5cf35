----------------------------- MODULE PoolTrace -----------------------------
(* Checks episodes recorded from the real thread pool against ParallelFor.
   Every episode is one initial state; it conforms iff all of its events are
   steps of ParallelFor.  An event that is not is reported together with the
   properties whose statement it contradicts, and the specification then adopts
   the state the event implies (Force), so that one defect does not hide another. *)
EXTENDS ParallelFor, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxWorkers == 64

VARIABLES ep, l
tvars == <<status, nw, todo, busy, ep, l>>

TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init

E == Trace[ep].ev[l]

Step(e) ==
  CASE e[1] = "open"   -> Opening
    [] e[1] = "opened" -> Opened(Trace[ep].nt, e[2], MaxWorkers)
    [] e[1] = "run"    -> Run(e[2])
    [] e[1] = "s"      -> Start(e[2], e[3])
    [] e[1] = "e"      -> End(e[2], e[3])
    [] e[1] = "ret"    -> Return
    [] e[1] = "mode"   -> Mode
    [] e[1] = "moded"  -> Moded
    [] e[1] = "close"  -> Close
    [] e[1] = "closed" -> Closed(e[2])
    [] OTHER           -> FALSE     \* race, stuck, crash: no behaviour of the pool

AllIdle == \A w \in DOMAIN busy : busy[w] = NoTask

\* Which statements the event contradicts.
Blame(e) ==
  CASE e[1] = "s" -> (IF status # "running" \/ e[2] \notin todo THEN {"P01"} ELSE {})
                     \cup (IF e[3] \notin 0..(nw-1) THEN {"P02"} ELSE IF busy[e[3]] # NoTask THEN {"P02"} ELSE {})
    [] e[1] = "e" -> {"P01"}
    [] e[1] = "ret" -> {"P01"} \cup (IF AllIdle THEN {} ELSE {"P02"})
    [] e[1] = "race" -> {"P02"}
    [] e[1] \in {"stuck", "closed", "unfinished"} -> {"P03"}
    [] e[1] = "crash" -> {"P01", "P02", "P03"}
    [] e[1] = "opened" -> {"P02"}
    [] OTHER -> {"P01"}

Force(e) ==
  CASE e[1] = "s" -> /\ todo' = todo \ {e[2]}
                     /\ busy' = IF e[3] \in 0..(nw-1) THEN [busy EXCEPT ![e[3]] = e[2]] ELSE busy
                     /\ UNCHANGED <<status, nw>>
    [] e[1] = "e" -> /\ busy' = IF e[3] \in 0..(nw-1) THEN [busy EXCEPT ![e[3]] = NoTask] ELSE busy
                     /\ UNCHANGED <<status, nw, todo>>
    [] e[1] = "ret" -> status' = "idle" /\ todo' = {} /\ busy' = Idle(nw) /\ UNCHANGED nw
    [] e[1] = "opened" -> status' = "idle" /\ nw' = e[2] /\ todo' = {} /\ busy' = Idle(e[2])
    [] e[1] = "closed" -> status' = "gone" /\ UNCHANGED <<nw, todo, busy>>
    [] OTHER -> UNCHANGED pvars

Consume == /\ l <= Len(Trace[ep].ev)
           /\ Step(E)
           /\ l' = l + 1 /\ ep' = ep

Reject == /\ l <= Len(Trace[ep].ev)
          /\ ~ ENABLED Step(E)
          /\ PrintT("REJECT " \o ToString(<<Blame(E), ep, l, E>>))
          /\ l' = l + 1 /\ ep' = ep
          /\ Force(E)

\* An episode must end with the pool gone (otherwise an operation never returned).
Finish == /\ l = Len(Trace[ep].ev) + 1
          /\ IF status = "gone" \/ Trace[ep].ev[l - 1][1] \in {"stuck", "crash"} THEN TRUE
             ELSE PrintT("REJECT " \o ToString(<<{"P03"}, ep, l, <<"unfinished", status>> >>))
          /\ l' = l + 1 /\ ep' = ep
          /\ UNCHANGED pvars

TNext == Consume \/ Reject \/ Finish
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
