---------------------------- MODULE ReduceTrace ---------------------------
EXTENDS ReduceOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
K(r) == IF "k" \in DOMAIN r THEN r.k ELSE << >>
Bad(r) == {j \in DOMAIN r.c : ~ Expect(r.op, r.t, r.n, K(r), r.c[j])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A j \in Bad(r) : PrintT("BAD " \o ToString(<<i, j, r.op, r.t, r.c[j]>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
