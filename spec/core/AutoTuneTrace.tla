---------------------------- MODULE AutoTuneTrace ----------------------------
EXTENDS AutoTune, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
T == Trace[ep]
E == T.ev[l]
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ Init
Pos(c) == IF c = -1 THEN 0 ELSE (c - 1000) \div 7 + 1
\* Constant costs: the estimates once all candidates have a sample.
Known(p, cost) == IF \E i \in DOMAIN cnt : i # p /\ cnt[i] = 0 THEN << >> ELSE SubSeq([i \in DOMAIN cnt |-> 1024 * (IF i = p THEN cost ELSE hi[i])], 1, Len(cnt))
Ests(e) == IF "const" \in DOMAIN T THEN Known(Pos(e[2]), e[4]) ELSE e[5]
Step(e) ==
  CASE e[1] = "has" -> IF cands = << >> /\ e[2] = 1 THEN SetCandidates([i \in 1..T.n |-> 1000 + 7 * (i - 1)])
                       ELSE e[2] = 0 /\ UNCHANGED vars
    [] e[1] = "report" -> e[2] = e[3] /\ Report(T.kmin, Pos(e[2]), e[4], Ests(e), Pos(e[6]), \E k \in (l + 1)..Len(T.ev) : T.ev[k][1] = "report" /\ T.ev[k][2] = e[2])
    [] e[1] = "best" -> best # 0 /\ Pos(e[2]) = best /\ UNCHANGED vars
    [] e[1] = "cands" -> e[2] = cands /\ e[3] = 1 /\ UNCHANGED vars
    [] OTHER -> FALSE
Consume == l <= Len(T.ev) /\ Step(E) /\ l' = l + 1 /\ ep' = ep
Reject == /\ l <= Len(T.ev) /\ ~ ENABLED Step(E)
          /\ PrintT("REJECT " \o ToString(<<ep, l, live, cur, droppable, rounds, thr, best>>))
          /\ l' = Len(T.ev) + 1 /\ UNCHANGED <<ep, vars>>
TSpec == TInit /\ [][Consume \/ Reject]_<<vars, ep, l>>
=============================================================================
