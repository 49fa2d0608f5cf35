---------------------------- MODULE AutoTuneImpl ----------------------------
(* The implementation's algorithm (linked ring of positions, drop rule estimate > 5/4 of the best of
   the last round, estimate of a candidate abstracted to its last reported cost, which like every
   estimate lies within its reports) refines AutoTune and terminates after at most
   N * (3 MinS / 2 + 1) reports. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MinS, Costs
VARIABLES next, prev, idx, est, minc, maxc, n, rds, skip, bst, reports, lastBest, live, droppable
ivars == <<next, prev, idx, est, minc, maxc, n, rds, skip, bst, reports, lastBest, live, droppable>>
P == 1..N
Succ(i) == IF i = N THEN 1 ELSE i + 1
Pred(i) == IF i = 1 THEN N ELSE i - 1
IInit == /\ next = [i \in P |-> Succ(i)] /\ prev = [i \in P |-> Pred(i)] /\ idx = 1
         /\ est = [i \in P |-> 0] /\ minc = [i \in P |-> 0] /\ maxc = [i \in P |-> 0] /\ n = [i \in P |-> 0]
         /\ rds = 0 /\ skip = 0 /\ bst = 0 /\ reports = 0 /\ lastBest = -1 /\ live = P /\ droppable = {}
MinE(e) == CHOOSE x \in {e[i] : i \in P} : \A i \in P : x <= e[i]
AT == INSTANCE AutoTune WITH cands <- [i \in P |-> i], cur <- idx, cnt <- n, lo <- minc, hi <- maxc,
         rounds <- rds, thr <- lastBest, best <- bst
Notify(c) ==
  LET my == idx
      e1 == [est EXCEPT ![my] = c]
      nx0 == next[my]
      drop == rds >= MinS /\ 4 * e1[my] > skip /\ prev[my] # my /\ next[my] # my
      wrap == nx0 <= my
      r1 == IF wrap THEN rds + 1 ELSE rds
      m == MinE(e1)
      arg == CHOOSE i \in P : e1[i] = m /\ \A j \in 1..(i - 1) : e1[j] # m
  IN /\ bst = 0
     /\ est' = e1 /\ n' = [n EXCEPT ![my] = @ + 1] /\ reports' = reports + 1
     /\ minc' = [minc EXCEPT ![my] = IF n[my] = 0 THEN c ELSE IF c < @ THEN c ELSE @]
     /\ maxc' = [maxc EXCEPT ![my] = IF n[my] = 0 THEN c ELSE IF c > @ THEN c ELSE @]
     /\ next' = IF drop THEN [next EXCEPT ![prev[my]] = next[my]] ELSE next
     /\ prev' = IF drop THEN [prev EXCEPT ![next[my]] = prev[my]] ELSE prev
     /\ live' = IF drop THEN live \ {my} ELSE live
     /\ droppable' = {}
     /\ idx' = nx0 /\ rds' = r1
     /\ skip' = IF wrap /\ r1 >= MinS THEN 5 * m ELSE skip
     /\ lastBest' = IF wrap THEN m ELSE lastBest
     /\ bst' = IF wrap /\ r1 = (3 * MinS) \div 2 + 1 THEN arg ELSE 0
INext == \E c \in Costs : Notify(c)
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(INext)
Bounded == reports <= N * ((3 * MinS) \div 2 + 1)
BestIsMinimal == bst # 0 => \A i \in P : est[bst] <= est[i]
Terminates == <>(bst # 0)
\* Every report is one the specification allows: handed out in turn, dropped only for its own estimate.
StepOk == /\ idx \in live
          /\ n'[idx] = n[idx] + 1 /\ \A i \in P \ {idx} : n'[i] = n[i] /\ est'[i] = est[i]
          /\ live' # {} /\ live \ live' \subseteq {idx}
          /\ (live # live') => (rds >= MinS /\ est'[idx] > lastBest)
          /\ idx' \in (live' \cup {idx}) /\ \A p \in live' \ {idx} : p # idx' => AT!Dist(N, idx, idx') < AT!Dist(N, idx, p)
          /\ bst' # 0 => bst' \in P /\ \A i \in live' : est'[bst'] <= est'[i]
Refines == [][StepOk]_ivars
=============================================================================
