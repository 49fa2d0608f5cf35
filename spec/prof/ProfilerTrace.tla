--------------------------- MODULE ProfilerTrace ---------------------------
(* Replays the recorded history of each episode event by event and compares the
   final report. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, th, k, st
ZName(z) == Trace[ep].names[z + 1]
P == INSTANCE Profiler WITH NameOf <- ZName
vars == <<ep, th, k, st>>
E == Trace[ep]
Init == ep \in 1..Len(Trace) /\ th = 1 /\ k = 1 /\ st = <<<< >>, {}>>
Ev == E.threads[th][k]
Event == /\ th <= Len(E.threads) /\ k <= Len(E.threads[th])
         /\ st' = P!Apply(st, Ev) /\ k' = k + 1 /\ UNCHANGED <<ep, th>>
NextThread == /\ th <= Len(E.threads) /\ k > Len(E.threads[th])
              /\ Assert(st[1] = << >>, "history is not properly nested")
              /\ th' = th + 1 /\ k' = 1 /\ UNCHANGED <<ep, st>>
Finish == /\ th = Len(E.threads) + 1 /\ th' = th + 1 /\ UNCHANGED <<ep, k, st>>
          /\ (~(E.crash = "" /\ P!ReportOK(E.rows, st[2], E.passes, E.tick)) => PrintT("BAD " \o ToString(<<ep, st[2]>>)))
TSpec == Init /\ [][Event \/ NextThread \/ Finish]_vars
=============================================================================
