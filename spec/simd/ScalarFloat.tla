----------------------------- MODULE ScalarFloat -----------------------------
(* The scalar floating-point utilities: half-precision types behave as the IEEE
   values they represent. *)
EXTENDS FloatOps
B(x) == IF x THEN 1 ELSE 0
\* Conversion between any two types (integers convert to floats only).
Source(t, a) == IF IsFloatT(t) THEN Dec(t, a) ELSE IntVal(Signed(t), a)
IsConverted(t, to, a, r) == Is(to, r, Source(t, a))
Expect(op, t, to, c) ==
  LET n == Size(t)
      a == SubSeq(c, 1, n)  b == SubSeq(c, n + 1, 2 * n)  r == SubSeq(c, 2 * n + 1, 3 * n)  rest == SubSeq(c, n + 1, Len(c))
      x == Dec(t, a)  y == Dec(t, b)  one == Fin(0, OneW, 0)
  IN CASE op = "Convert" -> IsConverted(t, to, a, rest)
       [] op = "Classify" -> rest = <<B(IsNaNV(x)), B(IsInfV(x)), B(IsFin(x)), x.s>> \o Mag(t, a)
       [] op = "CopySign" -> r = WithSign(b[n] \div 128, Mag(t, a))
       [] op = "Compare" -> LET k == CmpF(x, y)  u == Unord(x, y) IN SubSeq(c, 2 * n + 1, Len(c)) =
             <<B(~u /\ k = 0), B(u \/ k # 0), B(~u /\ k < 0), B(~u /\ k <= 0), B(~u /\ k > 0), B(~u /\ k >= 0)>>
       [] op = "Add" -> Is(t, r, AddX(x, y))
       [] op = "Sub" -> Is(t, r, SubX(x, y))
       [] op = "Mul" -> Is(t, r, MulXF(x, y))
       [] op = "Div" -> IsDiv(t, r, x, y)
       [] op = "Neg" -> Is(t, r, Neg(x))
       [] op = "Inc" -> Is(t, r, AddX(x, one))
       [] op = "Dec" -> Is(t, r, SubX(x, one))
       [] op = "Limits" -> LET hi == SubW(InfMag(t), Fit(OneW, n)) IN a = hi /\ b = WithSign(1, hi) /\ Is(t, r, Fin(0, OneW, 1 - Prec(t)))
       [] OTHER -> FALSE
=============================================================================
