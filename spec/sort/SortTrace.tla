----------------------------- MODULE SortTrace -----------------------------
EXTENDS Sorting, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
Init == l \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~ done /\ done' = TRUE /\ l' = l
        /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT("BAD " \o ToString(<<l>>))
Spec == Init /\ [][Next]_<<l, done>>
=============================================================================
