------------------------------ MODULE MathTrace ------------------------------
(* Validates recorded results of the math functions; lines {op, t, c: [[argument, .., result bytes], ..]}. *)
EXTENDS MathFns, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
Nth(t, c, k) == SubSeq(c, (k - 1) * Size(t) + 1, k * Size(t))
Fns == {"Acos", "Asin", "Atan", "Atanh", "Acosh", "Asinh", "Cos", "Sin", "SinCosS", "SinCosC", "Exp", "Exp2", "Expm1", "Log", "Log10", "Log1p", "Log2", "Sinh", "Tanh"}
Ok(op, t, c) ==
  CASE op \in Fns -> Unary(op, t, Nth(t, c, 1), Nth(t, c, 2), MaxUlp(op))
    [] op = "Atan2" -> Atan2Ok(t, Nth(t, c, 1), Nth(t, c, 2), Nth(t, c, 3))
    [] op = "Hypot" -> HypotOk(t, Nth(t, c, 1), Nth(t, c, 2), Nth(t, c, 3))
    [] OTHER -> FALSE
\* SinCos next to a zero: the error is small compared with the argument only.
Cancels(op, t, c) ==
  /\ op \in {"SinCosS", "SinCosC"}
  /\ LET x == Nth(t, c, 1)  y == Nth(t, c, 2)  a == Arg(t, x)
     IN /\ ~IsNaNV(Dec(t, y)) /\ ~IsInfV(Dec(t, y))
        /\ CmpB(AbsB(SubB(Arg(t, y), Value(op, a))), ScaleB(AbsB(a), IF t = "f32" THEN -34 ELSE -95)) <= 0
Bad(r) == {j \in DOMAIN r.c : ~Ok(r.op, r.t, r.c[j])}
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET r == Trace[i] IN \A j \in Bad(r) : PrintT("BAD " \o ToString(<<i, j, Cancels(r.op, r.t, r.c[j])>>))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
