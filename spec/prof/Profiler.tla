------------------------------ MODULE Profiler ------------------------------
(* P40: what a profile must report.  The abstract state of a history is, for each
   thread, the stack of active zones and, for each zone name, how often it was
   entered and how much time was spent in it outside enclosed zones (in ticks of
   the thread's clock).  Events of one thread:
     <<1, z>> enter zone z     <<2, w>> w ticks pass     <<3>> leave the innermost zone
     <<4, z, w, n>> n times: enter z, w ticks pass, leave   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NameOf(_)      \* name of a zone; several zones may have the same name
\* A total is a pair of counts; totals are sets of <<name, calls, ticks>>.
Bump(tot, nm, n, w) == LET old == {x \in tot : x[1] = nm} IN
   IF old = {} THEN tot \cup {<<nm, n, w>>} ELSE (tot \ old) \cup {<<x[1], x[2] + n, x[3] + w>> : x \in old}
Pass(stack, w) == IF stack = << >> THEN stack ELSE [stack EXCEPT ![Len(stack)][2] = @ + w]
\* One event: <<stack, totals>> to <<stack, totals>>.
Apply(st, e) ==
  CASE e[1] = 1 -> <<Append(st[1], <<e[2], 0>>), st[2]>>
    [] e[1] = 2 -> <<Pass(st[1], e[2]), st[2]>>
    [] e[1] = 3 -> LET top == st[1][Len(st[1])] IN <<SubSeq(st[1], 1, Len(st[1]) - 1), Bump(st[2], NameOf(top[1]), 1, top[2])>>
    [] e[1] = 4 -> <<st[1], Bump(st[2], NameOf(e[2]), e[4], e[3] * e[4])>>
\* The printed report: rows <<name, calls, ticks>>, by decreasing ticks, one per name.
\* When the storage of a thread is full, its packets are analysed at once, and the
\* time of that goes to the zone which is active then: up to "passes" times "cost"
\* ticks in all, and nothing when fewer events were recorded than the storage holds.
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + SumOf(S \ {x})
ReportOK(rows, tot, passes, cost) ==
  LET got == {rows[i] : i \in DOMAIN rows} IN
  /\ Len(rows) = Cardinality(tot)
  /\ IF passes * cost = 0 THEN got = tot ELSE
       /\ \A x \in tot : \E y \in got : /\ y[1] = x[1] /\ y[2] = x[2] /\ y[3] >= x[3] /\ (y[3] - x[3]) % cost = 0
                                         /\ y[3] - x[3] <= passes * cost
       /\ \A x, y \in got : x[1] = y[1] => x = y
       /\ SumOf(got) - SumOf(tot) <= passes * cost
  /\ \A i \in 1..(Len(rows) - 1) : rows[i][3] >= rows[i + 1][3]
=============================================================================
