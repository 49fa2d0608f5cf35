------------------------- MODULE AlignedAllocTrace -------------------------
EXTENDS AlignedAlloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
E == Trace[ep].ev[l]
\* the last component of alloc/free: every live block still has the contents its owner wrote and
\* nothing outside the allocator's blocks was written
Ok(e) ==
  CASE e[1] = "alloc" -> AllocOk(e[2], e[3], e[4], e[5]) /\ e[6] = 1
    [] e[1] = "free" -> FreeOk(e[2], e[3]) /\ e[4] = 1
    [] e[1] = "end" -> live = << >> /\ e[2] = 0
    [] OTHER -> FALSE
Effect(e) ==
  CASE e[1] = "alloc" -> Alloc(e[2], e[3], e[4], e[5])
    [] e[1] = "free" -> Free(e[2])
    [] OTHER -> UNCHANGED live
Next == /\ l <= Len(Trace[ep].ev) /\ ep' = ep
        /\ IF Ok(E) THEN Effect(E) /\ l' = l + 1
           ELSE PrintT("REJECT " \o ToString(<<ep, l, live>>)) /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED live
TSpec == TInit /\ [][Next]_<<live, ep, l>>
=============================================================================
