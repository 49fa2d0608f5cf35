------------------------------- MODULE Bench -------------------------------
(* P42: the micro-benchmark Measure.  The observable behaviour is a sequence of groups
   of timed intervals: all intervals of a group contain the same sequence of calls, and
   the same known number of ticks ("loop") that passed outside of the calls.
   What the results may be is defined from these observations. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Force(s) == SubSeq(s, 1, Len(s))
Sorted(s) == Force(SortSeq(s, <))
AvgUp(a, b) == (a + b + 1) \div 2
MedianOfSorted(s) == LET n == Len(s) IN IF n % 2 = 1 THEN s[(n \div 2) + 1] ELSE AvgUp(s[n \div 2], s[(n \div 2) + 1])
\* Half-sample mode: halve to any of the half-samples with the smallest range.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Starts(_, _, _)
Starts(s, bs, half) ==
  IF half <= 1 THEN bs
  ELSE LET best(b) == LET m == MinOf({s[i + half] - s[i] : i \in b..(b + half - 1)})
                      IN {i \in b..(b + half - 1) : s[i + half] - s[i] = m}
       IN Starts(s, UNION {best(b) : b \in bs}, half \div 2)
Modes(s) == LET n == Len(s) IN
  IF s[1] = s[n] THEN {s[1]}
  ELSE IF n < 2 THEN {s[1]} ELSE {AvgUp(s[b], s[b + 1]) : b \in Starts(s, {1}, n \div 2)}
\* Possible estimates of a group, each with its median absolute deviation.
Abs(x) == IF x < 0 THEN -x ELSE x
Estimates(c, samples) ==
  LET s == Sorted(samples)
      es == IF Len(s) >= c.minmode THEN Modes(s) ELSE {MedianOfSorted(s)}
  IN {<<e, MedianOfSorted(Sorted(Force([i \in 1..Len(s) |-> Abs(s[i] - e)])))>> : e \in es}
\* Relative deviation in millionths, rounded down and up.
RelLo(em) == (em[2] * 1000000) \div em[1]
RelHi(em) == RelLo(em) + 1
\* Sampling ends once the estimate is stable or after the maximal number of evaluations.
Stable(c, em) == RelLo(em) <= c.rel \/ em[2] <= (c.res + 99) \div 100
Enough(c, n) == n >= 1 + c.minsamples
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Exhausted(c, n) == n >= 1 + c.minsamples * (Pow2(c.evals) - 1)
Finished(c, G, ems) == /\ Enough(c, Len(G.samples))
                       /\ (\E em \in ems : Stable(c, em)) \/ Exhausted(c, Len(G.samples))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
\* Runs of x: between two other elements t has at most as many x as s, and the others agree.
RECURSIVE RunsLE(_, _, _, _, _)
RunsLE(s, t, x, i, j) ==
  LET runS == IF i > Len(s) THEN 0 ELSE CHOOSE k \in 0..(Len(s) - i + 1) : /\ \A q \in i..(i + k - 1) : s[q] = x
                                                                          /\ (i + k > Len(s) \/ s[i + k] # x)
      runT == IF j > Len(t) THEN 0 ELSE CHOOSE k \in 0..(Len(t) - j + 1) : /\ \A q \in j..(j + k - 1) : t[q] = x
                                                                          /\ (j + k > Len(t) \/ t[j + k] # x)
  IN /\ runT <= runS
     /\ IF i + runS > Len(s) THEN j + runT > Len(t)
        ELSE j + runT <= Len(t) /\ s[i + runS] = t[j + runT] /\ RunsLE(s, t, x, i + runS + 1, j + runT + 1)
Subset(s, t, x, n) == Len(t) = Len(s) - n /\ RunsLE(s, t, x, 1, 1)
-----------------------------------------------------------------------------
\* The full sequence of calls is the longest group.
FullIndex(c) == LET ml == MaxOf({Len(c.groups[k].calls) : k \in DOMAIN c.groups}) IN MinOf({k \in DOMAIN c.groups : Len(c.groups[k].calls) = ml})
Unique(c) == Range(c.inputs)
\* Number of omitted occurrences, from the length of the full sequence.
Skip(c, F) == Len(F.calls) \div (c.ratio * IF Cardinality(Unique(c)) = 1 THEN 1 ELSE Len(c.inputs))
FullOK(c, F, n) ==
  /\ n > 0
  /\ IF Cardinality(Unique(c)) = 1 THEN Len(F.calls) = c.ratio * n /\ Range(F.calls) = Unique(c)
     ELSE \A x \in Unique(c) : Count(F.calls, x) = c.ratio * n * Count(c.inputs, x)
CallsOK(c) == \A k \in DOMAIN c.groups : Range(c.groups[k].calls) \subseteq Unique(c)
\* Estimates of all groups at once, indexed by group.
AllEst(c) == Force([k \in DOMAIN c.groups |-> Estimates(c, c.groups[k].samples)])
\* A result of the difference d of two estimates divided by n, times 1024, as a 24-bit float.
TicksOK(t, d, n) == LET e == t * n - d * 1024 IN Abs(e) <= n + (d * 1024) \div 1000000
VarOK(v, lo, hi) == v >= lo - 1 - lo \div 1000000 /\ v <= hi + 1 + hi \div 1000000
ResultOK(c, est, f, n, r) ==
  \E k \in (f + 1)..Len(c.groups) :
    /\ Subset(c.groups[f].calls, c.groups[k].calls, r[1], n)
    /\ \E ef \in est[f], ek \in est[k] :
         /\ TicksOK(r[2], (ef[1] - c.groups[f].loop) - (ek[1] - c.groups[k].loop), n)
         /\ VarOK(r[3], RelLo(IF RelLo(ef) >= RelLo(ek) THEN ef ELSE ek),
                  MaxOf({RelHi(em) : em \in UNION {est[q] : q \in f..Len(c.groups)}}))
\* With a constant cost of every call, or with disturbances of few samples only, the result is exact.
ExactOK(c, r) == c.noise \in {0, 1} =>
   LET i == CHOOSE i \in DOMAIN c.inputs : c.inputs[i] = r[1] IN TicksOK(r[2], c.cost[i], 1) /\ r[3] = 0
\* The number of calls is sufficient for the requested precision.
PrecisionOK(c, est, f, n) ==
  \E probes \in {{k \in 1..(f - 1) : Len(c.groups[k].calls) = 1}} :
     probes # {} => n * MinOf({MinOf({em[1] : em \in est[k]}) - c.res : k \in probes}) >= c.divisor
\* May a measurement fail?  Only if the timer is missing or durations are not positive.
MayFail(c) ==
  \/ c.timer = 0
  \/ \E i \in DOMAIN c.cost : c.cost[i] = 0
  \/ c.noise \notin {0, 1}
EpisodeOK(c) ==
  /\ c.crash = "" /\ c.beyond = 0
  /\ CallsOK(c)
  /\ IF c.results = << >> THEN MayFail(c)
     ELSE LET f == FullIndex(c)  n == Skip(c, c.groups[f])  est == AllEst(c) IN
          /\ c.timer = 1
          /\ Len(c.results) = Cardinality(Unique(c))
          /\ {c.results[k][1] : k \in DOMAIN c.results} = Unique(c)
          /\ FullOK(c, c.groups[f], n)
          /\ \A k \in f..Len(c.groups) : Finished(c, c.groups[k], est[k])
          /\ PrecisionOK(c, est, f, n)
          /\ \A k \in DOMAIN c.results : ResultOK(c, est, f, n, c.results[k]) /\ ExactOK(c, c.results[k])
=============================================================================
