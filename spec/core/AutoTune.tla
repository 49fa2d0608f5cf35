------------------------------ MODULE AutoTune ------------------------------
(* P05.  Auto-tuning over N candidates with MinS = kMinSamples.  Estimates are integers (the
   implementation's estimate, scaled by 1024 and truncated).  Which candidates are dropped is left to
   the implementation within the rule: only right after an own report, only once it was measured
   often enough, and only if its own estimate exceeds the best estimate of the last full round. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cands,      \* sequence of candidates (empty: not set)
          live,       \* positions still measured
          cur,        \* position to hand out next
          droppable,  \* positions possibly dropped in the last round
          cnt, lo, hi,\* per position: number, minimum and maximum of its reports
          rounds, thr,\* completed rounds, best estimate at the end of the last one
          best
vars == <<cands, live, cur, droppable, cnt, lo, hi, rounds, thr, best>>

Init == /\ cands = << >> /\ live = {} /\ cur = 0 /\ droppable = {} /\ cnt = << >> /\ lo = << >> /\ hi = << >>
        /\ rounds = 0 /\ thr = -1 /\ best = 0
SetCandidates(cs) == /\ cands' = cs /\ live' = 1..Len(cs) /\ cur' = 1 /\ droppable' = {}
                     /\ cnt' = [i \in DOMAIN cs |-> 0] /\ lo' = [i \in DOMAIN cs |-> 0] /\ hi' = [i \in DOMAIN cs |-> 0]
                     /\ rounds' = 0 /\ thr' = -1 /\ best' = 0
Dist(n, a, b) == IF b > a THEN b - a ELSE b - a + n          \* steps of the round robin from a to b, in 1..n
MinOf(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Rounds(mins) == (3 * mins) \div 2 + 1

Slack == 2
\* Position pos was handed out and its report leads to estimates es (empty until all candidates have
\* a sample) and best candidate b (0: none yet).  `again`: pos is handed out again later on.  A
\* position not handed out again before the last round was dropped by this report.
Report(mins, pos, cost, es, b, again) ==
  LET n == Len(cands)
      nx == IF live = {pos} THEN pos ELSE IF \E p \in live : p > pos THEN MinOf({p \in live : p > pos}) ELSE MinOf(live)
      wrap == nx <= pos
      l1 == [lo EXCEPT ![pos] = IF cnt[pos] = 0 THEN cost ELSE Min2(@, cost)]
      h1 == [hi EXCEPT ![pos] = IF cnt[pos] = 0 THEN cost ELSE Max2(@, cost)]
      mayDrop == live # {pos} /\ rounds >= mins /\ thr >= 0 /\ es # << >> /\ es[pos] + Slack > thr
      r1 == IF wrap THEN rounds + 1 ELSE rounds
      done == r1 = Rounds(mins)
      last == rounds + 1 = Rounds(mins)
      drop == ~again /\ ~last
  IN /\ best = 0 /\ pos = cur /\ pos \in live
     /\ drop => mayDrop
     /\ cands' = cands /\ cur' = nx
     /\ live' = IF drop THEN live \ {pos} ELSE live
     /\ droppable' = IF last /\ mayDrop THEN droppable \cup {pos} ELSE droppable
     /\ cnt' = [cnt EXCEPT ![pos] = @ + 1] /\ lo' = l1 /\ hi' = h1 /\ rounds' = r1
     /\ thr' = IF wrap /\ es # << >> THEN MinOf({es[i] : i \in 1..n}) ELSE thr
     \* attribution: the estimate of every candidate lies within its own reports
     /\ es # << >> => \A i \in 1..n : 1024 * l1[i] - Slack <= es[i] /\ es[i] <= 1024 * h1[i] + Slack
     /\ best' = b
     /\ (b # 0) = done
     /\ done => /\ b \in 1..n
                /\ \A i \in live \ droppable : es[b] <= es[i] + Slack
=============================================================================
