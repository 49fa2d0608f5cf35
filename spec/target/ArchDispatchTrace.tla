------------------------- MODULE ArchDispatchTrace -------------------------
EXTENDS ArchDispatch, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j          \* record, episode
Conv(r) == [arch |-> r.arch, big |-> r.big, comp |-> r.comp, ver |-> r.ver, patch |-> r.patch, os |-> r.os, auxv |-> r.auxv,
            num |-> r.num, feat |-> ToSet(r.feat), user |-> ToSet(r.user), disabled |-> ToSet(r.disabled),
            obase |-> ToSet(r.obase), obroken |-> r.obroken, dev |-> {}]
S0 == [m |-> [caps |-> {}, len |-> 16, vill |-> FALSE], disabled |-> {}, forced |-> {}]
BadEvent(c, R, ev, ep) ==
  LET RECURSIVE Go(_, _)
      Go(k, s) ==
        IF k > Len(ep) THEN 0 ELSE
        LET e == ep[k] IN
        CASE e[1] = "hw" -> Go(k + 1, [s EXCEPT !.m = [caps |-> ToSet(e[2]), len |-> e[3], vill |-> e[4] = 1]])
          [] e[1] = "disable" -> Go(k + 1, [s EXCEPT !.disabled = ToSet(e[2])])
          [] e[1] = "force" -> Go(k + 1, [s EXCEPT !.forced = ToSet(e[2])])
          [] e[1] = "supported" -> IF ToSet(e[2]) = Supported(c, R, s) THEN Go(k + 1, s) ELSE k
          [] e[1] = "gen" -> LET q == Supported(c, R, s) \cap R.targets IN
               IF ToSet(e[2]) = q /\ Len(e[2]) = Cardinality(q) /\ (\A a \in 1 .. Len(e[2]) - 1 : Better(e[2][a], e[2][a + 1])) THEN Go(k + 1, s) ELSE k
          [] e[1] = "call" -> IF e[2] = Runs(c, R, s) THEN Go(k + 1, s) ELSE k
          [] OTHER -> k
  IN Go(1, S0)
NameOk(c, n) == n[1] \in ArchTargets(c) => n[2] = n[1]
InfoOk(c, q) == LET t == q[1] IN
  /\ q[2] = "N_" \o t
  /\ q[3] = MaxBytes(t) /\ q[4] = Lanes(t, 1) /\ q[5] = Lanes(t, 4)
  /\ (q[6] = 1) = Scalable(t) /\ q[7] = 1
  /\ (t = "NEON_BF16" => q[8] = 1) /\ (t \in {"WASM", "WASM_EMU256", "EMU128", "SCALAR"} \cup AllPpc \cup AllZ => q[8] = 0)
  /\ (q[9] = 1) = (c.arch # "v7" \/ t \in {"EMU128", "SCALAR"})
  /\ (t \in {"SVE", "SVE2", "SVE_256", "SVE2_128", "RVV"} => q[10] = 0)
  /\ (t \in AllNeon \cup AllPpc \cup AllZ \cup {"WASM", "WASM_EMU256", "EMU128"} => q[10] = 1)
  /\ IF c.arch = "v7" /\ t \in AllNeon THEN (q[11] = 1) = (F(c, "__ARM_FEATURE_FMA") \/ F(c, "__ARM_VFPV4__")) ELSE (q[11] = 1) = Fma(t)
  /\ (q[12] = 1) => MaxBytes(t) >= 32
  /\ (q[13] = 1) => MaxBytes(t) >= 64
HeadOk(r) == LET c == Conv(r) R == Result(c) IN
  /\ (r.static # <<R.static>> \/ ToSet(r.targets) # R.targets) => PrintT("BAD " \o ToString(i) \o " targets 0 0")
  /\ (ToSet(r.compiled) # R.targets \/ Len(r.compiled) # Cardinality(R.targets)) => PrintT("BAD " \o ToString(i) \o " compiled 0 0")
  /\ \A n \in ToSet(r.names) : ~NameOk(c, n) => PrintT("BAD " \o ToString(i) \o " name-" \o n[1] \o " 0 0")
  /\ \A q \in ToSet(r.infos) : ~InfoOk(c, q) => PrintT("BAD " \o ToString(i) \o " macros-" \o q[1] \o " 0 0")
Ep(r) == LET k == BadEvent(Conv(r), Result(Conv(r)), 0, r.episodes[j]) IN
  (k # 0) => PrintT("BAD " \o ToString(i) \o " " \o r.episodes[j][k][1] \o " " \o ToString(j) \o " " \o ToString(k))
TInit == i = 1 /\ j = 0
TNext == /\ i <= Len(Recs)
         /\ IF j = 0 THEN HeadOk(Recs[i]) ELSE Ep(Recs[i])
         /\ IF j < Len(Recs[i].episodes) THEN j' = j + 1 /\ i' = i ELSE i' = i + 1 /\ j' = 0
TSpec == TInit /\ [][TNext]_<<i, j>>
=============================================================================
