----------------------------- MODULE RandomTrace -----------------------------
(* One behaviour per recorded history: the generator's state advances with each call. *)
EXTENDS RandomStreams, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, st
H == Trace[i]
Bad == PrintT("BAD " \o ToString(<<i, 1, H.op, IF k <= Len(H.ev) THEN H.ev[k].k ELSE "init">>))
InitState(r) == IF r.op = "Vector" \/ r.op = "Cached" THEN VectorInit(r.seed, r.thread, r.lanes)
                ELSE IF r.op = "Scalar" THEN ScalarInit(r.seed, r.thread) ELSE << >>
Init == i \in 1..Len(Trace) /\ k = 0 /\ st = << >>
\* numbers a cache of size c returns when refilled as needed
RECURSIVE CacheR(_, _, _, _)
CacheR(s, c, n, acc) == IF n <= 0 THEN acc ELSE LET g == Gen(s, c) IN CacheR(g.st, c, n - c, acc \o (IF n < c THEN SubSeq(g.out, 1, n) ELSE g.out))
Apply(ev) ==      \* <<accepted, next state>>
  IF ev.k = "N" THEN LET g == Gen(st, ev.n) IN << ev.kept = 1 /\ ev.out = g.out, g.st >>
  ELSE IF ev.k = "U" THEN LET g == Gen(st, ev.n) IN << ev.kept = 1 /\ Len(ev.out) = ev.n /\ \A j \in 1..ev.n : ev.out[j] = Uniform(g.out[j]) /\ InUnit(ev.out[j]), g.st >>
  ELSE IF ev.k = "J" THEN << TRUE, << Jump(st[1]) >> >>
  ELSE IF ev.k = "L" THEN << TRUE, << LongJump(st[1]) >> >>
  ELSE IF ev.k = "S" THEN << ev.n = 4 * Len(st) /\ (IF H.op = "Scalar" THEN ev.out = st[1] ELSE \A w \in 1..4 : ev.out[w] = [l \in DOMAIN st |-> st[l][w]]), st >>
  ELSE IF ev.k = "T" THEN << TRUE, << ev.out >> >>
  ELSE IF ev.k = "C" THEN << ev.kept = 1 /\ ev.out = CacheR(st, ev.n, Len(ev.out), << >>), st >>
  ELSE IF ev.k = "M" THEN << ev.out = Split(H.seed, ev.n), st >>
  ELSE << FALSE, st >>
Next ==
  IF H.op = "crash" THEN k = 0 /\ Bad /\ k' = 1 /\ UNCHANGED <<i, st>>
  ELSE IF k = 0 THEN st' = InitState(H) /\ k' = 1 /\ UNCHANGED i
  ELSE /\ k <= Len(H.ev)
       /\ LET a == Apply(H.ev[k]) IN
          IF a[1] THEN st' = a[2] /\ k' = k + 1 /\ UNCHANGED i
          ELSE Bad /\ k' = 1000000 /\ UNCHANGED <<i, st>>
Spec == Init /\ [][Next]_<<i, k, st>>
=============================================================================
