------------------------------- MODULE BitOps -------------------------------
(* P24: bitwise operations, shifts, rotates and bit counts of one lane. *)
EXTENDS LaneTypes

RotL(a, k) == LET b == NumBits(a) s == k % b IN IF s = 0 THEN a ELSE OrW(ShlW(a, s), ShrW(a, b - s))
RotR(a, k) == LET b == NumBits(a) s == k % b IN RotL(a, (b - s) % b)
RShr(s, a, k) == IF k = 0 THEN a ELSE Trunc(Shr(s, AddW(Shr(s, Ext(s, a, Len(a) + 1), k - 1), W(1, Len(a) + 1)), 1), Len(a))
Merge(m, y, n) == OrW(AndW(m, y), AndW(NotW(m), n))
ReverseBitsW(a) == LET b == NumBits(a) r(k) == Bit(a, b - 1 - k) IN FromBits(Len(a), r)

Expect(op, t, c) ==
  LET n == Size(t)  s == Signed(t)
      A == SubSeq(c, 1, n)  B == SubSeq(c, n + 1, 2 * n)  C == SubSeq(c, 2 * n + 1, 3 * n)
      R1 == SubSeq(c, n + 1, Len(c))  R2 == SubSeq(c, 2 * n + 1, Len(c))  R3 == SubSeq(c, 3 * n + 1, Len(c))
      K == c[n + 1]  RK == SubSeq(c, n + 2, Len(c))      \* immediate or same-for-all amount
      Amt == B[1] % (8 * n)                              \* per-lane amount
      Z == Zero(n)
  IN
  CASE op = "And" -> R2 = AndW(A, B)
    [] op = "Or" -> R2 = OrW(A, B)
    [] op = "Xor" -> R2 = XorW(A, B)
    [] op = "AndNot" -> R2 = AndW(NotW(A), B)
    [] op = "Not" -> R1 = NotW(A)
    [] op = "Xor3" -> R3 = XorW(XorW(A, B), C)
    [] op = "Or3" -> R3 = OrW(OrW(A, B), C)
    [] op = "OrAnd" -> R3 = OrW(A, AndW(B, C))
    [] op = "BitwiseIfThenElse" -> R3 = Merge(A, B, C)
    [] op = "BroadcastSignBit" -> R1 = (IF IsNeg(A) THEN Ones(n) ELSE Z)
    [] op = "ZeroIfNegative" -> R1 = (IF IsNeg(A) THEN Z ELSE A)
    [] op = "IfNegativeThenElse" -> R3 = (IF IsNeg(A) THEN B ELSE C)
    [] op = "IfNegativeThenElseZero" -> R2 = (IF IsNeg(A) THEN B ELSE Z)
    [] op = "IfNegativeThenZeroElse" -> R2 = (IF IsNeg(A) THEN Z ELSE B)
    [] op = "IfNegativeThenNegOrUndefIfZero" ->
         LET neg == IF IsFloatT(t) THEN XorW(B, MinOf(TRUE, n)) ELSE NegW(B)
         IN IF IsZero(A) THEN R2 \in {Z, B} ELSE R2 = (IF IsNeg(A) THEN neg ELSE B)
    [] op = "ShiftLeft" -> RK = ShlW(A, K)
    [] op = "ShiftRight" -> RK = Shr(s, A, K)
    [] op = "RoundingShiftRight" -> RK = RShr(s, A, K)
    [] op = "RotateLeft" -> RK = RotL(A, K)
    [] op = "RotateRight" -> RK = RotR(A, K)
    [] op = "Shl" -> R2 = ShlW(A, Amt)
    [] op = "Shr" -> R2 = Shr(s, A, Amt)
    [] op = "RoundingShr" -> R2 = RShr(s, A, Amt)
    [] op = "Rol" -> R2 = RotL(A, Amt)
    [] op = "Ror" -> R2 = RotR(A, Amt)
    [] op = "PopulationCount" -> R1 = W(Pop(A), n)
    [] op = "LeadingZeroCount" -> R1 = W(8 * n - 1 - HighBit(A), n)
    [] op = "TrailingZeroCount" -> R1 = W(LowBit(A), n)
    [] op = "HighestSetBitIndex" -> IF IsZero(A) THEN IsNeg(R1) ELSE R1 = W(HighBit(A), n)
    [] op = "ReverseBits" -> R1 = ReverseBitsW(A)
    [] op = "ReverseLaneBytes" -> R1 = RevSeq(A)
    [] op = "AllBits" -> LET v == SubSeq(c, 1, Len(c) - 2)
                         IN /\ (c[Len(c) - 1] = 1) = (v = Ones(Len(v)))
                            /\ (c[Len(c)] = 1) = (v = Zero(Len(v)))
    [] op = "BitShuffle" -> R2 = <<Bit(A, B[1]) + 2 * Bit(A, B[2]) + 4 * Bit(A, B[3]) + 8 * Bit(A, B[4]) + 16 * Bit(A, B[5])
                                    + 32 * Bit(A, B[6]) + 64 * Bit(A, B[7]) + 128 * Bit(A, B[8])>> \o Zero(7)
    [] op = "MultiRotateRight" -> R2 = [j \in 1..8 |-> RotR(A, B[j])[1]]
    [] OTHER -> FALSE
=============================================================================
