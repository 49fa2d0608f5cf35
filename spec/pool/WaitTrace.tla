----------------------------- MODULE WaitTrace -----------------------------
EXTENDS Waits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ WInit
E == Trace[ep].ev[l]
Ok(e) ==
  CASE e[1] \in {"set", "wake"} -> TRUE
    [] e[1] = "wait" -> WaitOk(e[3])
    [] e[1] = "ret" -> pend[e[3]].loc = e[2] /\ RetOk(e[3], e[5])
    [] e[1] = "stuck" -> StuckOk
    [] e[1] = "end" -> \A w \in Waiters : pend[w].kind = "none"
    [] e[1] = "detect" -> DetectOk(e[2], e[3], e[4], e[5], e[6], e[7]) /\ e[8] = e[7]
    [] e[1] = "call" -> e[2] = e[3]
    [] OTHER -> FALSE
Effect(e) ==
  CASE e[1] = "set" -> Set(e[2], e[5]) [] e[1] = "wake" -> Wake(e[2])
    [] e[1] = "wait" -> Wait(e[3], e[4], e[2], e[5]) [] e[1] = "ret" -> Ret(e[3], e[5])
    [] OTHER -> UNCHANGED wvars
Next == /\ l <= Len(Trace[ep].ev) /\ ep' = ep
        /\ IF Ok(E) THEN Effect(E) /\ l' = l + 1
           ELSE PrintT("REJECT " \o ToString(<<ep, l, [hist |-> hist, pend |-> pend, woken |-> woken, last |-> last]>>)) /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED wvars
TSpec == TInit /\ [][Next]_<<wvars, ep, l>>
=============================================================================
