---------------------------- MODULE DispatchTrace ----------------------------
EXTENDS Dispatch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
R == Trace[ep]
E == R.ev[l]
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
D == Members(R.detected)
T(i) == Members(R.targets[i + 1])
Base == 14                      \* SSE2, the baseline of the library's translation units
Bytes(t) == IF t <= 8 THEN 64 ELSE IF t = 9 THEN 32 ELSE IF t = 62 THEN 1 ELSE 16
Ok(e) ==
  CASE e[1] \in {"disable", "force", "reset", "update"} -> TRUE
    [] e[1] = "supported" -> Members(e[2]) = Supported(D, Base)
    [] e[1] = "init" -> e[2] = e[3]
    [] e[1] = "call" -> e[3] = Runs(D, Base, T(e[2]))
    [] e[1] = "generated" -> /\ Members(e[3]) = Supported(D, Base) \cap T(e[2])
                             /\ \A i \in 1..(Len(e[3]) - 1) : e[3][i] < e[3][i + 1]
    [] e[1] = "lib" -> e[2] = Runs(D, Base, T(3)) /\ e[3] = Bytes(e[2])
    [] OTHER -> FALSE
Next == /\ l <= Len(R.ev) /\ ep' = ep
        /\ IF Ok(E) THEN /\ l' = l + 1
                         /\ CASE E[1] = "disable" -> Disable(Members(E[2])) [] E[1] = "force" -> Force(Members(E[2])) [] OTHER -> UNCHANGED dvars
           ELSE PrintT("REJECT " \o ToString(<<ep, l, dvars>>)) /\ l' = Len(R.ev) + 1 /\ UNCHANGED dvars
TSpec == TInit /\ [][Next]_<<dvars, ep, l>>
=============================================================================
