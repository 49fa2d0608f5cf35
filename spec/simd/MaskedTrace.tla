---------------------------- MODULE MaskedTrace ---------------------------
EXTENDS MaskedOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
Bad(r) == {j \in DOMAIN r.c : ~ Expect(r.op, r.t, r.b, r.f, r.ar, r.k, r.c[j])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A j \in Bad(r) : PrintT("BAD " \o ToString(<<i, j, r.op, r.t, r.c[j]>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
