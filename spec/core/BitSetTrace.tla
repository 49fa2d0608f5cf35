---------------------------- MODULE BitSetTrace ----------------------------
EXTENDS BitSet, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
E == Trace[ep].ev[l]
Cap == Trace[ep].cap
Step(e) ==
  CASE e[1] = "set" -> SetBit(Cap, e[2]) [] e[1] = "clear" -> ClearBit(Cap, e[2]) [] e[1] = "bulk" -> Bulk(Cap, e[2])
    [] e[1] = "get" -> Get(e[2], e[3]) [] e[1] = "any" -> Any(e[2]) [] e[1] = "first" -> First(e[2])
    [] e[1] = "count" -> Count(e[2]) [] e[1] = "get64" -> Get64(e[2]) [] e[1] = "each" -> Each(e[2])
    [] e[1] = "guard" -> e[2] = 1 /\ UNCHANGED set      \* memory around the object is untouched
    [] OTHER -> FALSE
Consume == l <= Len(Trace[ep].ev) /\ Step(E) /\ l' = l + 1 /\ ep' = ep
Reject == /\ l <= Len(Trace[ep].ev) /\ ~ ENABLED Step(E)
          /\ PrintT("REJECT " \o ToString(<<ep, l, set>>))
          /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED <<ep, set>>
TSpec == TInit /\ [][Consume \/ Reject]_<<set, ep, l>>
=============================================================================
