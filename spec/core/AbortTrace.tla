---------------------------- MODULE AbortTrace ----------------------------
EXTENDS Abort, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
R == Trace[ep]
E == R.ev[l]
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
Step(e) ==
  CASE e[1] = "install" -> Install(e[2], e[3], e[4])
    [] e[1] = "get" -> Get(e[2], e[3])
    \* the last component: a warning returned to its caller / the process ended at the abort
    [] e[1] \in {"warn", "abort"} -> Reported(e[1], e[2], e[3], e[4], e[5], e[6], e[7]) /\ e[8] = 1 /\ UNCHANGED slot
    [] OTHER -> FALSE
Consume == l <= Len(R.ev) /\ Step(E) /\ l' = l + 1 /\ ep' = ep
Reject == /\ l <= Len(R.ev) /\ ~ ENABLED Step(E)
          /\ PrintT("REJECT " \o ToString(<<ep, l, slot>>))
          /\ l' = Len(R.ev) + 1 /\ UNCHANGED <<ep, slot>>
TSpec == TInit /\ [][Consume \/ Reject]_<<slot, ep, l>>
=============================================================================
