----------------------------- MODULE PerfTrace -----------------------------
EXTENDS PerfCounters, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Rng(q) == {q[a] : a \in 1 .. Len(q)}
Cyc(k) == CyclesOnly(k.epyc, k.sys, k.major, k.minor)
Wanted(k) == {c \in Counters : Accepts(k, {}, EventOf(c, Cyc(k)))}
Id(q) == <<q[1], q[2]>>
\* Apply the openings reported by the kernel; every one must be of a wanted, not yet opened counter, in a group with room for it.
RECURSIVE OpenAll(_, _, _, _)
OpenAll(k, s, o, n) ==
  IF n > Len(o) THEN [ok |-> TRUE, s |-> s] ELSE
  LET ev == Id(o[n]) g == o[n][3] IN
  IF ev \notin {EventOf(c, Cyc(k)) : c \in Counters} \/ ev \in EventsOf(s) \/ (g # 0 /\ ~FitsGroup(k, Rng(s.groups[g]), ev)) THEN [ok |-> FALSE, s |-> s]
  ELSE OpenAll(k, Open(s, g, ev), o, n + 1)
\* A reading: valid counters have the extrapolated value (thousandths); without failures all opened and scheduled counters are valid.
ReadOk(k, s, e) ==
  LET F == Rng(e[2]) any == e[3] = 1 valid == Rng(e[4]) vals == e[5] each == e[6] mx == e[7]
      Evt(c) == EventOf(c, Cyc(k))
      opened == {c \in Counters : Evt(c) \in EventsOf(s)}
      Good(g) == g \notin F /\ s.run[g] > 0
      Ratio(g) == (s.en[g] * 1000 + s.run[g] \div 2) \div s.run[g]       \* nearest thousandth (ties: tolerance below)
      Diff(a, b) == IF a > b THEN a - b ELSE b - a
      used == {GroupOf(s, Evt(c)) : c \in valid}
  IN /\ any = (valid # {})
     /\ valid \subseteq {c \in opened : Good(GroupOf(s, Evt(c)))}
     /\ (\A g \in DOMAIN s.groups : Good(g)) => valid = opened
     /\ \A c \in Counters : IF c \in valid
           THEN LET g == GroupOf(s, Evt(c)) IN vals[c + 1] >= 0 /\ Diff(vals[c + 1] * s.run[g], s.count[Evt(c)] * s.en[g] * 1000) <= s.run[g]
           ELSE vals[c + 1] = 0
     /\ Len(each) = Cardinality(valid)
     /\ \A a \in 1 .. Len(each) : each[a][1] \in valid /\ each[a][2] = vals[each[a][1] + 1] /\ (a > 1 => each[a - 1][1] < each[a][1])
     /\ (valid # {} /\ \A g \in DOMAIN s.groups : Good(g)) =>
          (\A g \in used : mx + 1 >= Ratio(g)) /\ (\E g \in used : Diff(mx, Ratio(g)) <= 1)
Bad(ev) ==
  LET RECURSIVE Go(_, _, _)
      Go(n, k, s) ==
        IF n > Len(ev) THEN 0 ELSE
        LET e == ev[n] IN
        CASE e[1] = "kernel" -> Go(n + 1, [perf |-> e[2] = 1, hw |-> e[3], llc |-> e[4], epyc |-> e[5] = 1, sys |-> e[6], major |-> e[7], minor |-> e[8],
                                          events |-> {Id(q) : q \in Rng(e[9])}], s)
          [] e[1] = "names" -> IF e[2] = Names THEN Go(n + 1, k, s) ELSE n
          [] e[1] = "init" ->
               LET r == OpenAll(k, s, e[3], 1) have == {c \in Counters : EventOf(c, Cyc(k)) \in EventsOf(r.s)} IN
               IF r.ok /\ (s.groups # <<>> => e[3] = <<>>)                      \* a second Init changes nothing
                  /\ (s.groups = <<>> => have = Wanted(k)) /\ ((e[2] = 1) = (have # {}))
               THEN Go(n + 1, k, IF s.groups = <<>> THEN Reset(r.s) ELSE r.s) ELSE n
          [] e[1] = "start" -> IF (e[2] = 1) = (s.groups # <<>>) THEN Go(n + 1, k, IF s.groups # <<>> THEN Start(s) ELSE s) ELSE n
          [] e[1] = "stop" -> Go(n + 1, k, Reset(s))
          [] e[1] = "tick" -> Go(n + 1, k, Tick(s, e[2], [x \in {Id(q) : q \in Rng(e[4])} |-> (CHOOSE q \in Rng(e[4]) : Id(q) = x)[3]], Rng(e[3])))
          [] e[1] = "read" -> IF ReadOk(k, s, e) THEN Go(n + 1, k, s) ELSE n
          [] OTHER -> n
  IN Go(1, 0, Empty)
TInit == i = 1
TNext == /\ i <= Len(Recs)
         /\ LET b == Bad(Recs[i].ev) IN b # 0 => PrintT("REJECT " \o ToString(<<i, b, 0>>))
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
