---------------------------- MODULE DotMatTrace ----------------------------
EXTENDS DotMat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN IF r.op # "crash" /\ Ok(r) THEN TRUE ELSE PrintT("BAD " \o ToString(<<i, 1, r.op, r.t>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
