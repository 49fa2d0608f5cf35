---------------------------- MODULE StatsTrace ----------------------------
EXTENDS Stats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l
TInit == ep \in 1..Len(Trace) /\ l = 1 /\ smp = [o \in 0..7 |-> << >>]
E == Trace[ep].ev[l]
O(e) == smp[e[2]]
\* bins: the samples are bin numbers; the report lists the counts up to the last nonzero bin
BinsOk(s, cs) == LET top == IF s = << >> THEN 0 ELSE MaxSeq(s) IN
   Len(cs) = top + 1 /\ \A b \in 0..top : cs[b + 1] = Count(s, b)
Ok(e) ==
  CASE e[1] \in {"notify", "bin", "merge", "mergebins", "reset", "resetbins"} -> TRUE
    [] e[1] = "count" -> CountOk(O(e), e[3])
    [] e[1] = "empty" -> EmptyOk(O(e), SubSeq(e, 3, Len(e)))
    [] e[1] = "range" -> RangeOk(O(e), e[3], e[4])
    [] e[1] = "mean" -> MeanOk(O(e), e[3]) /\ MeanOk(O(e), e[4])
    [] e[1] = "var" -> VarOk(O(e), e[3]) /\ SdOk(O(e), e[4]) /\ MuOk(O(e), e[5], 2)
    [] e[1] = "mu" -> MuOk(O(e), e[3], 2) /\ MuOk(O(e), e[4], 3) /\ MuOk(O(e), e[5], 4)
    [] e[1] = "skew" -> SkewOk(O(e), e[3], FALSE) /\ SkewOk(O(e), e[4], TRUE)
    [] e[1] = "kurt" -> KurtOk(O(e), e[3], FALSE) /\ KurtOk(O(e), e[4], TRUE)
    [] e[1] = "geo" -> GeoOk(O(e), e[3])
    [] e[1] = "bins" -> BinsOk(O(e), e[3])
    [] e[1] = "robust" -> RobustOk(e[2], e[3], e[4], e[5], e[6])
    [] OTHER -> FALSE
Effect(e) ==
  CASE e[1] = "notify" \/ e[1] = "bin" -> Notify(e[2], e[3])
    [] e[1] = "merge" \/ e[1] = "mergebins" -> Merge(e[2], e[3])
    [] e[1] = "reset" \/ e[1] = "resetbins" -> Reset(e[2])
    [] OTHER -> UNCHANGED smp
Next == /\ l <= Len(Trace[ep].ev) /\ ep' = ep
        /\ IF Ok(E) THEN Effect(E) /\ l' = l + 1
           ELSE PrintT("REJECT " \o ToString(<<ep, l, smp>>)) /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED smp
TSpec == TInit /\ [][Next]_<<smp, ep, l>>
=============================================================================
