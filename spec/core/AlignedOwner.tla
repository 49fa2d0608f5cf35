---------------------------- MODULE AlignedOwner ----------------------------
(* Owners (slots 0..5) of aligned objects or arrays.  own[s] = [p, n, ts, base] with p = -1 if the
   owner is empty.  log is the sequence of allocator calls and constructor/destructor calls:
   <<"a", bytes, base, ok>>, <<"c", address, args>>, <<"d", address, 0>>, <<"f", base, ok>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE own
Empty == [p |-> -1, n |-> 0, ts |-> 1, base |-> -1]
Init == own = [s \in 0..5 |-> Empty]
\* All elements destroyed exactly once (in any order), then the memory returned once.
DestroyLog(o, log) ==
  IF o.p = -1 THEN log = << >>
  ELSE /\ Len(log) = o.n + 1
       /\ \A i \in 1..o.n : log[i][1] = "d"
       /\ {log[i][2] : i \in 1..o.n} = {o.p + k * o.ts : k \in 0..(o.n - 1)}
       /\ log[o.n + 1] = <<"f", o.base, 1>>
\* Elements constructed in order with the same arguments.
ConstructLog(p, n, ts, arg, log) == Len(log) = n /\ \A i \in 1..n : log[i] = <<"c", p + (i - 1) * ts, arg>>
\* n = 0 stands for a count whose byte size overflows.  res: the address the slot holds afterwards.
MakeOk(s, n, ts, arg, log, res) ==
  IF n = 0 THEN res = -1 /\ DestroyLog(own[s], log)
  ELSE /\ Len(log) >= 1 /\ log[1][1] = "a" /\ log[1][4] = 1
       /\ IF log[1][3] < 0 THEN res = -1 /\ DestroyLog(own[s], SubSeq(log, 2, Len(log)))
          ELSE /\ res >= log[1][3] /\ res % 128 = 0 /\ Len(log) >= n + 1
               /\ ConstructLog(res, n, ts, arg, SubSeq(log, 2, n + 1))
               /\ DestroyLog(own[s], SubSeq(log, n + 2, Len(log)))
Make(s, n, ts, log, res) == own' = [own EXCEPT ![s] = IF res = -1 THEN Empty ELSE [p |-> res, n |-> n, ts |-> ts, base |-> log[1][3]]]
ResetOk(s, log, res) == res = -1 /\ DestroyLog(own[s], log)
Reset(s) == own' = [own EXCEPT ![s] = Empty]
MoveOk(s, t, log, rs, rt) == rs = own[t].p /\ rt = -1 /\ DestroyLog(own[s], log)
Move(s, t) == own' = [own EXCEPT ![s] = own[t], ![t] = Empty]
SwapOk(s, t, log, rs, rt) == rs = own[t].p /\ rt = own[s].p /\ log = << >>
Swap(s, t) == own' = [own EXCEPT ![s] = own[t], ![t] = own[s]]
=============================================================================
