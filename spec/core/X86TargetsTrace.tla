---------------------------- MODULE X86TargetsTrace ----------------------------
EXTENDS X86Targets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
R == Trace[ep]
E == R.ev[l]
Members(s) == {s[i] : i \in DOMAIN s}
TInit == ep \in 1..Len(Trace) /\ l = 1
Exp(e) == Offered(Members(e[2]), e[3] = 1, Members(e[4]), e[5], e[6] = 1)
\* XGETBV (which is illegal without OSXSAVE) was not executed illegally, and the targets are right.
Ok(e) == e[1] = "cpu" /\ e[8] = 0 /\ Members(e[7]) = Exp(e)
Next == /\ l <= Len(R.ev) /\ ep' = ep /\ l' = l + 1
        /\ Ok(E) \/ PrintT("REJECT " \o ToString(<<ep, l, Exp(E)>>))
TSpec == TInit /\ [][Next]_<<ep, l>>
\* Fewer features or less register state never add a target.
=============================================================================
