--------------------------- MODULE TopologyTrace ---------------------------
EXTENDS Topology, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
Good(t) == /\ t.crash = ""
           /\ CASE t.kind = "topo" -> TopologyOK(t.c, t.r) /\ CachesOK(t.c, t.r)
                [] t.kind = "aff" -> AffinityOK(t)
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ (~Good(Trace[i]) => PrintT("BAD " \o ToString(i)))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
