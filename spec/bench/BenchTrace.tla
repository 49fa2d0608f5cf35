----------------------------- MODULE BenchTrace -----------------------------
EXTENDS Bench, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, pc
Init == ep \in 1..Len(Trace) /\ pc = "measure"
Next == pc = "measure" /\ pc' = "done" /\ UNCHANGED ep
        /\ (~EpisodeOK(Trace[ep]) => PrintT("BAD " \o ToString(ep)))
TSpec == Init /\ [][Next]_<<ep, pc>>
=============================================================================
