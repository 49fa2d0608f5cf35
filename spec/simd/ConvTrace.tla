----------------------------- MODULE ConvTrace ----------------------------
EXTENDS ConvOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
N(r) == IF "n" \in DOMAIN r THEN r.n ELSE 0
Bad(r) == {j \in DOMAIN r.c : ~ Expect(r.op, r.t, r.to, N(r), r.c[j])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A j \in Bad(r) : PrintT("BAD " \o ToString(<<i, j, r.op, r.t, r.c[j]>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
