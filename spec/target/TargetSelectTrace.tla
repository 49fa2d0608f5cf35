------------------------- MODULE TargetSelectTrace -------------------------
(* Checks the outcome of the real preprocessor headers for each simulated    *)
(* compilation against TargetSelect.                                         *)
EXTENDS TargetSelect, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Conv(r, dev) == [arch |-> r.arch, big |-> r.big, comp |-> r.comp, ver |-> r.ver, patch |-> r.patch, os |-> r.os, auxv |-> r.auxv,
                 num |-> r.num, feat |-> ToSet(r.feat), user |-> ToSet(r.user), disabled |-> ToSet(r.disabled),
                 obase |-> ToSet(r.obase), obroken |-> r.obroken, dev |-> dev]
Match(r, c) == LET e == Result(c) IN
  /\ r.err = e.err
  /\ ~e.err => /\ r.static = <<e.static>> /\ r.cur = <<e.static>>
               /\ ToSet(r.targets) = e.targets
               /\ ToSet(r.baseline) \cap ArchTargets(c) = Baseline(c)
               /\ ToSet(r.broken) \cap ArchTargets(c) = Broken(c) \cap ArchTargets(c)
Dev(r, S) == IF Match(r, Conv(r, {})) THEN "" ELSE
             IF \E d \in S : Match(r, Conv(r, {d})) THEN CHOOSE d \in S : Match(r, Conv(r, {d})) ELSE "BAD"
Step(r) == LET d == Dev(r, {"evex512"}) IN
  /\ (d = "BAD") => PrintT("BAD " \o ToString(i + 1)) /\ PrintT(Result(Conv(r, {})))
  /\ (d \notin {"", "BAD"}) => PrintT("DEV " \o d \o " " \o ToString(i + 1))
  /\ ~Good(Conv(r, {})) => PrintT("SPEC " \o ToString(i + 1))
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1 /\ Step(Recs[i + 1])
TSpec == Init /\ [][Next]_i
=============================================================================
