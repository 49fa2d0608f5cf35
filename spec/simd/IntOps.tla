------------------------------- MODULE IntOps -------------------------------
(* P23: lane-wise integer arithmetic.  Expect(op, t, c) is TRUE iff case c (the
   bytes of all operands followed by those of the result) is a step of the
   machine for lanes of type t. *)
EXTENDS LaneTypes

MinW(s, a, b) == IF Lt(s, b, a) THEN b ELSE a
MaxW(s, a, b) == IF Lt(s, a, b) THEN b ELSE a
MagU(s, a) == IF s THEN AbsW(a) ELSE a

\* Truncating division: q is correct iff |a| = |q| * |b| + r with 0 <= r < |b| and the sign is right.
IsQuot(s, a, b, q) ==
  LET n == Len(a)
      aa == ZExt(MagU(s, a), 2 * n)  bb == ZExt(MagU(s, b), 2 * n)
      neg == s /\ IsNeg(a) # IsNeg(b)
      qq == IF neg THEN NegW(q) ELSE q
      p == MulU(qq, MagU(s, b))
  IN /\ CmpU(p, aa) <= 0 /\ CmpU(SubW(aa, p), bb) = -1
\* Remainder r has the sign of a, |r| < |b| and b divides a - r.
\* Checked through the unique quotient: |a| - |r| is a multiple of |b| (long division by bits).
RECURSIVE RemR(_, _, _, _)
RemR(a, b, k, r) ==
  IF k < 0 THEN r
  ELSE LET r2 == ShlW(r, 1)
           r3 == IF Bit(a, k) = 1 THEN AddW(r2, W(1, Len(r))) ELSE r2
       IN RemR(a, b, k - 1, IF CmpU(r3, b) >= 0 THEN SubW(r3, b) ELSE r3)
RemU(a, b) == Trunc(RemR(a, ZExt(b, Len(a) + 1), NumBits(a) - 1, Zero(Len(a) + 1)), Len(a))
Rem(s, a, b) == LET r == RemU(MagU(s, a), MagU(s, b)) IN IF s /\ IsNeg(a) THEN NegW(r) ELSE r

\* 128-bit values: operands are pairs of u64 lanes.
Lt128(a, b) == CmpU(a, b) = -1

Expect(op, t, c) ==
  LET n == Size(t)  s == Signed(t)
      A == SubSeq(c, 1, n)  B == SubSeq(c, n + 1, 2 * n)  C == SubSeq(c, 2 * n + 1, 3 * n)
      R1 == SubSeq(c, n + 1, Len(c))  R2 == SubSeq(c, 2 * n + 1, Len(c))  R3 == SubSeq(c, 3 * n + 1, Len(c))
      X(a) == Ext(s, a, n + 1)
      XX(a) == Ext(s, a, 2 * n)
      Prod == Trunc(MulU(A, B), n)
      A2 == SubSeq(c, 1, 16)  B2 == SubSeq(c, 17, 32)  R128 == SubSeq(c, 33, 48)
  IN
  CASE op = "Add" -> R2 = AddW(A, B)
    [] op = "Sub" -> R2 = SubW(A, B)
    [] op = "Neg" -> R1 = NegW(A)
    [] op = "Abs" -> R1 = AbsW(A)
    [] op = "SaturatedAbs" -> R1 = Sat(s, IF IsNeg(A) THEN NegW(X(A)) ELSE X(A), n)
    [] op = "SaturatedNeg" -> R1 = Sat(s, NegW(X(A)), n)
    [] op = "SaturatedAdd" -> R2 = Sat(s, AddW(Ext(s, A, n + 2), Ext(s, B, n + 2)), n)
    [] op = "SaturatedSub" -> R2 = Sat(s, SubW(Ext(s, A, n + 2), Ext(s, B, n + 2)), n)
    [] op = "AbsDiff" -> R2 = (IF Lt(s, A, B) THEN SubW(B, A) ELSE SubW(A, B))
    [] op = "AverageRound" -> R2 = Trunc(Shr(s, AddW(AddW(X(A), X(B)), W(1, n + 1)), 1), n)
    [] op = "Min" -> R2 = MinW(s, A, B)
    [] op = "Max" -> R2 = MaxW(s, A, B)
    [] op = "MinMagnitude" -> R2 = (IF CmpU(MagU(s, A), MagU(s, B)) = -1 THEN A ELSE IF CmpU(MagU(s, B), MagU(s, A)) = -1 THEN B ELSE MinW(s, A, B))
    [] op = "MaxMagnitude" -> R2 = (IF CmpU(MagU(s, A), MagU(s, B)) = 1 THEN A ELSE IF CmpU(MagU(s, B), MagU(s, A)) = 1 THEN B ELSE MaxW(s, A, B))
    [] op = "Clamp" -> R3 = MinW(s, MaxW(s, A, B), C)
    [] op = "Mul" -> R2 = Prod
    [] op = "MulHigh" -> R2 = SubSeq(MulX(s, A, B), n + 1, 2 * n)
    [] op = "MulFixedPoint15" -> R2 = Trunc(SarW(AddW(MulX(TRUE, A, B), W(16384, 4)), 15), 2)
    [] op = "MulWide" -> R2 = MulX(s, A, B)          \* MulEven / MulOdd: exact double-width product
    [] op = "Div" -> IsQuot(s, A, B, R2)
    [] op = "Mod" -> R2 = Rem(s, A, B)
    [] op = "MulAdd" -> R3 = AddW(Prod, C)
    [] op = "NegMulAdd" -> R3 = SubW(C, Prod)
    [] op = "MulSub" -> R3 = SubW(Prod, C)
    [] op = "NegMulSub" -> R3 = NegW(AddW(Prod, C))
    [] op = "Min128" -> R128 = (IF Lt128(B2, A2) THEN B2 ELSE A2)
    [] op = "Max128" -> R128 = (IF Lt128(A2, B2) THEN B2 ELSE A2)
    [] op = "Min128Upper" -> R128 = (IF CmpU(SubSeq(A2, 9, 16), SubSeq(B2, 9, 16)) = -1 THEN A2 ELSE B2)
    [] op = "Max128Upper" -> R128 = (IF CmpU(SubSeq(B2, 9, 16), SubSeq(A2, 9, 16)) = -1 THEN A2 ELSE B2)
    [] OTHER -> FALSE
=============================================================================
