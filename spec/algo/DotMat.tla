------------------------------- MODULE DotMat -------------------------------
(* Dot and matrix-vector products of integers.  The recorded operands are chosen such that every product and every sum
   of a subset of products is representable in the accumulator (Small), so the result must be the exact integer,
   whatever the order of summation.  `exact`: the (unscaled) result was an integer. *)
EXTENDS Integers, Sequences, TLC
RECURSIVE SumR(_, _, _, _)
SumR(x, y, k, acc) == IF k > Len(x) THEN acc ELSE SumR(x, y, k + 1, acc + x[k] * y[k])
Dot(x, y) == SumR(x, y, 1, 0)
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE MagR(_, _, _, _)
MagR(x, y, k, acc) == IF k > Len(x) THEN acc ELSE MagR(x, y, k + 1, acc + AbsI(x[k] * y[k]))
Mag(x, y) == MagR(x, y, 1, 0)
\* largest integer up to which all integers are representable in the accumulator
Limit(t) == IF t = "f16-f16" THEN 2048 ELSE IF t = "i16-i16" \/ t = "f64-f64" THEN 2147483647 ELSE 16777216
Legal(r) == /\ Len(r.x) = Len(r.y) /\ Mag(r.x, r.y) <= Limit(r.t)
            /\ (r.as % 2 = 1 => Len(r.x) >= r.lanes) /\ ((r.as \div 2) % 2 = 1 => Len(r.x) % r.lanes = 0)
OkDot(r) == Legal(r) /\ r.fault = 0 /\ r.exact = 1 /\ r.r = Dot(r.x, r.y)
OkMat(r) ==
  /\ r.fault = 0 /\ r.kept = 1 /\ r.exact = 1 /\ Len(r.out) = Len(r.m)
  /\ \A i \in 1..Len(r.m) :
       /\ Mag(r.m[i], r.v) + (IF r.op = "MatVecAdd" THEN AbsI(r.add[i]) ELSE 0) <= Limit(r.t)
       /\ r.out[i] = Dot(r.m[i], r.v) + (IF r.op = "MatVecAdd" THEN r.add[i] ELSE 0)
Ok(r) == IF r.op = "Dot" THEN OkDot(r) ELSE OkMat(r)
=============================================================================
