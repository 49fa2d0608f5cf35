------------------------- MODULE AlignedOwnerTrace -------------------------
EXTENDS AlignedOwner, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
E == Trace[ep].ev[l]
Ok(e) ==
  CASE e[1] = "make" -> MakeOk(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "reset" -> ResetOk(e[2], e[3], e[4])
    [] e[1] = "move" -> MoveOk(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "swap" -> SwapOk(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "end" -> e[2] = << >> /\ e[3] = 0 /\ e[4] = 1
    [] OTHER -> FALSE
Effect(e) ==
  CASE e[1] = "make" -> Make(e[2], e[3], e[4], e[6], e[7])
    [] e[1] = "reset" -> Reset(e[2])
    [] e[1] = "move" -> Move(e[2], e[3])
    [] e[1] = "swap" -> Swap(e[2], e[3])
    [] OTHER -> UNCHANGED own
Next == /\ l <= Len(Trace[ep].ev) /\ ep' = ep
        /\ IF Ok(E) THEN Effect(E) /\ l' = l + 1
           ELSE PrintT("REJECT " \o ToString(<<ep, l, own>>)) /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED own
TSpec == TInit /\ [][Next]_<<own, ep, l>>
=============================================================================
