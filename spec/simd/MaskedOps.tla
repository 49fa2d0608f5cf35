----------------------------- MODULE MaskedOps -----------------------------
(* Masked forms of the lane operations: an active lane is a step of the unmasked
   operation, an inactive lane has exactly the fallback lane or zero, whatever
   its operands.  Lane case: <<mask>> fallback operands result.                *)
EXTENDS FloatOps
I == INSTANCE IntOps
F == INSTANCE FloatLanes
B == INSTANCE BitOps
Cmps == {"Eq", "Ne", "Lt", "Gt", "Le", "Ge"}
CmpHolds(op, k) == CASE op = "Eq" -> k = 0 [] op = "Ne" -> k # 0 [] op = "Lt" -> k < 0 [] op = "Gt" -> k > 0 [] op = "Le" -> k <= 0 [] op = "Ge" -> k >= 0
IntArith == {"Min", "Max", "Add", "Sub", "Mul", "Div", "Mod", "MulAdd", "NegMulAdd", "Abs", "SaturatedAdd", "SaturatedSub", "MulFixedPoint15"}
\* a: operand lanes; r: result; k: shift amount
Active(b, t, ar, k, v, r) ==
  LET z == Size(t)  l(i) == SubSeq(v, (i - 1) * z + 1, i * z)
  IN CASE b = "Id" -> r = v
       [] b \in Cmps /\ ~IsFloatT(t) -> r = (IF CmpHolds(b, Cmp(Signed(t), l(1), l(2))) THEN Ones(z) ELSE Zero(z))
       [] b = "BitOr" -> r = OrW(l(1), l(2))
       [] b \in {"ShiftLeft", "ShiftRight"} -> B!Expect(b, t, (v \o <<k>>) \o r)
       [] b \in {"Shr", "Or", "LeadingZeroCount"} -> B!Expect(b, t, v \o r)
       [] b \in IntArith /\ ~IsFloatT(t) -> I!Expect(b, t, v \o r)
       [] b \in {"f16", "f32", "f64"} -> Is(b, r, IntVal(Signed(t), v))                     \* conversion to float
       [] b \in {"i16", "i32", "i64"} -> r = ToInt("trunc", b, Dec(t, v))
       [] OTHER -> IF ar = 1 THEN F!Lane1(b, t, v, r) ELSE IF ar = 2 THEN F!Lane2(b, t, l(1), l(2), r, 0) ELSE F!Lane3(b, t, l(1), l(2), l(3), r, 0)
Expect(op, t, b, f, ar, k, c) ==
  LET z == Size(t)
      m == c[1] = 1
      no == SubSeq(c, 2, z + 1)  v == SubSeq(c, z + 2, z + 1 + ar * z)  r == SubSeq(c, z + 2 + ar * z, Len(c))
      \* complex pair: two mask lanes, then pairs
      q(i) == SubSeq(c, 2 + (i - 1) * z + 1, 2 + i * z)      \* lanes: no no a a b b c c r r
      x(i) == Dec(t, q(i))
      p == F!Cplx(x(3), x(4), x(5), x(6), b # "MulComplex")
      e(i) == IF b = "MulComplexConjAdd" THEN AddX(p[i], x(6 + i)) ELSE p[i]
      \* widening: mask, two lanes of each operand, wide result of type b
      w(i) == SubSeq(c, 2 + (i - 1) * z, 1 + i * z)  wr == SubSeq(c, 2 + 4 * z, Len(c))
      y == Size(b)
      pr(i, j) == Ext(TRUE, MulX(TRUE, Ext(Signed(t), w(i), z + 1), Ext(Signed(t), w(j), z + 1)), 8)
  IN IF ar = 9 THEN \A i \in {1, 2} : IF c[i] = 1 THEN IsNum(t, q(8 + i), e(i)) ELSE q(8 + i) = (IF f = 1 THEN q(i) ELSE Zero(z))
     ELSE IF ar = 8 THEN (IF ~m THEN wr = Zero(y)
                          ELSE IF IsFloatT(b) THEN IsNum(b, wr, AddX(MulXF(Dec(t, w(1)), Dec(t, w(3))), MulXF(Dec(t, w(2)), Dec(t, w(4)))))
                          ELSE wr = Trunc(AddW(pr(1, 3), pr(2, 4)), y))
     ELSE IF m THEN Active(b, t, ar, k, v, r)
     ELSE r = (IF f = 1 THEN no ELSE Zero(Len(r)))
=============================================================================
