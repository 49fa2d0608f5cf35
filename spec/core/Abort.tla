-------------------------------- MODULE Abort --------------------------------
(* P08.  Handler slots; 0 = default action. *)
EXTENDS Integers, Sequences, TLC
ToStr(i) == ToString(i)
VARIABLES slot                       \* "warn" / "abort" -> installed handler
BufSize == 800
Init == slot = [k \in {"warn", "abort"} |-> 0]
Install(k, h, prev) == prev = slot[k] /\ slot' = [slot EXCEPT ![k] = h]
Get(k, h) == h = slot[k] /\ UNCHANGED slot
\* The complete text if it fits; otherwise a prefix that fills the buffer.
MessageOk(full, m) == IF Len(full) < BufSize THEN m = full
                      ELSE /\ Len(m) >= BufSize - 1 /\ Len(m) <= Len(full) /\ m = SubSeq(full, 1, Len(m))
Contains(out, s) == Len(s) = 0 \/ \E k \in 1..(Len(out) - Len(s) + 1) : SubSeq(out, k, k + Len(s) - 1) = s
\* A report of kind k from (file, line); base is the file's name without directories.
\* calls: sequence of <<handler, file, line, message>>; out: what went to standard error.
Reported(k, file, base, line, full, calls, out) ==
  IF slot[k] # 0
  THEN /\ Len(calls) = 1
       /\ calls[1][1] = slot[k] /\ calls[1][2] = file /\ calls[1][3] = line /\ MessageOk(full, calls[1][4])
       /\ out = ""
  ELSE /\ Len(calls) = 0
       /\ Contains(out, base) /\ Contains(out, ToStr(line))
       /\ Contains(out, IF Len(full) < BufSize THEN full ELSE SubSeq(full, 1, BufSize - 1))
=============================================================================
