---------------------------- MODULE FloatLanesTrace ---------------------------
EXTENDS FloatLanes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
P(r) == IF "p" \in DOMAIN r THEN r.p ELSE 0
Bad(r) == {j \in DOMAIN r.c : ~ Expect(r.op, r.t, P(r), r.c[j])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A j \in Bad(r) : PrintT("BAD " \o ToString(<<i, j, r.op, r.t, r.c[j]>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
