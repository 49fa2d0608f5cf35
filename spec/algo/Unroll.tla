------------------------------- MODULE Unroll -------------------------------
(* The unrolled loop as a machine that receives elements of x0 (and x1) in vectors and stores results.
   An observation r is one call: the inputs (x0, x1: distinct nonzero numbers), and the sequence ev of calls the unit
   received: F (Func, lanes a and b of the inputs), S (StoreAndShortCircuit, returned r.r) and M (MaskStore).
   State: seen - elements given to Func; stored - elements written; stop - a store asked to stop.
   The result must be the one of the plain scalar loop. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Two(r) == r.op = "Unroll2"
F(r, e) == IF Two(r) THEN 2 * r.x0[e + 1] + r.x1[e + 1] ELSE 3 * r.x0[e + 1] + 1
P(r, e) == IF Two(r) THEN r.x0[e + 1] * r.x1[e + 1] ELSE r.x0[e + 1]
\* The elements a call delivers; each other lane must be padding.
Lane(r, ev, l) == LET e == ev.i + l - 1 IN   \* 1 element, 0 padding, -1 neither
  IF e \in 0..(r.n - 1) /\ ev.a[l] = r.x0[e + 1] /\ (Two(r) => ev.b[l] = r.x1[e + 1]) THEN 1
  ELSE IF ev.a[l] = 0 /\ (Two(r) => ev.b[l] = 0) THEN 0 ELSE -1
Elements(r, ev) == {ev.i + l - 1 : l \in {m \in DOMAIN ev.a : Lane(r, ev, m) = 1}}
FuncOk(r, s, ev) == /\ ~s.stop
                    /\ \A l \in DOMAIN ev.a : Lane(r, ev, l) # -1
                    /\ Elements(r, ev) \cap s.seen = {}
\* A store at idx covers all its lanes; the elements before it must be complete, so stopping means "first".
StoreOk(r, s, ev) == LET es == ev.i..(ev.i + Len(ev.a) - 1) IN
  /\ ~s.stop /\ es \subseteq s.seen /\ s.stored = 0..(ev.i - 1)
  /\ \A e \in es : ev.a[e - ev.i + 1] = F(r, e)
\* A masked store covers |places| elements: the first ones, or the last ones if negative.
MaskElems(ev) == IF ev.r >= 0 THEN ev.i..(ev.i + ev.r - 1) ELSE (ev.i + Len(ev.a) + ev.r)..(ev.i + Len(ev.a) - 1)
MaskOk(r, s, ev) == LET es == MaskElems(ev) IN
  /\ ~s.stop /\ es \subseteq s.seen /\ es \cap s.stored = {} /\ s.stored \cup es = 0..(r.n - 1)
  /\ \A e \in es : ev.a[e - ev.i + 1] = F(r, e)
RECURSIVE Run(_, _, _)
Run(r, s, k) ==     \* the final state, or stop = "bad"
  IF k > Len(r.ev) THEN [s EXCEPT !.ok = TRUE]
  ELSE LET ev == r.ev[k] IN
       IF ev.k = "F" THEN (IF FuncOk(r, s, ev) THEN Run(r, [s EXCEPT !.seen = s.seen \cup Elements(r, ev)], k + 1) ELSE s)
       ELSE IF ev.k = "S" THEN (IF StoreOk(r, s, ev) THEN Run(r, [s EXCEPT !.stored = 0..(ev.i + Len(ev.a) - 1), !.stop = (ev.r = 0)], k + 1) ELSE s)
       ELSE (IF MaskOk(r, s, ev) THEN Run(r, [s EXCEPT !.stored = 0..(r.n - 1)], k + 1) ELSE s)
RECURSIVE SumTo(_, _)
SumTo(r, e) == IF e < 0 THEN 0 ELSE P(r, e) + SumTo(r, e - 1)
Ok(r) ==
  LET s == Run(r, [seen |-> {}, stored |-> {}, stop |-> FALSE, ok |-> FALSE], 1) all == 0..(r.n - 1) IN
  /\ r.fault = 0 /\ r.kept = 1 /\ s.ok
  /\ (s.stop => r.kind = "Stop") /\ (~s.stop => s.seen = all)
  /\ IF r.kind = "Acc" THEN r.out = << SumTo(r, r.n - 1) >>
     ELSE /\ (~s.stop => s.stored = all)
          /\ r.out = [j \in 1..r.n |-> IF (j - 1) \in s.stored THEN F(r, j - 1) ELSE 0]
=============================================================================
