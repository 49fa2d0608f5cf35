------------------------------ MODULE CompressTrace -----------------------------
EXTENDS CompressOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
N(r) == IF "n" \in DOMAIN r THEN r.n ELSE 0
Bad(r) == {k \in DOMAIN r.c : ~ Expect(r.op, r.t, N(r), r.c[k])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A k \in Bad(r) : PrintT("BAD " \o ToString(<<i, k, r.op, r.t, r.c[k]>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
