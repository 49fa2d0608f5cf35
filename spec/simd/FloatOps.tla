------------------------------ MODULE FloatOps ------------------------------
(* IEEE-754 binary floating point over byte words, exact.  A value is a record
   [c, s, m, e]: class "fin" / "inf" / "nan", sign s, integer significand m (a
   byte word of any length, zero for a zero) and exponent e, i.e. the finite value
   (-1)^s * m * 2^e.  Encodings round to nearest, ties to even.                *)
EXTENDS LaneTypes

Prec(t) == CASE t = "f16" -> 11 [] t = "bf16" -> 8 [] t = "f32" -> 24 [] t = "f64" -> 53
MinE(t) == CASE t = "f16" -> -24 [] t = "bf16" -> -133 [] t = "f32" -> -149 [] t = "f64" -> -1074   \* exponent of the smallest subnormal
MaxE(t) == CASE t = "f16" -> 15 [] t = "bf16" -> 127 [] t = "f32" -> 127 [] t = "f64" -> 1023       \* exponent of the top bit of the largest value
MaxField(t) == IF t = "f16" THEN 31 ELSE IF t = "f64" THEN 2047 ELSE 255
InfMag(t) == CASE t = "f16" -> <<0, 124>> [] t = "bf16" -> <<128, 127>> [] t = "f32" -> <<0, 0, 128, 127>> [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 240, 127>>

\* ---- words of any length
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
Fit(a, n) == IF Len(a) >= n THEN SubSeq(a, 1, n) ELSE ZExt(a, n)
RECURSIVE TrimR(_, _)
TrimR(a, n) == IF n <= 1 THEN SubSeq(a, 1, 1) ELSE IF a[n] # 0 THEN SubSeq(a, 1, n) ELSE TrimR(a, n - 1)
Trim(a) == TrimR(a, Len(a))
TopB(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5 ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE x
BitLen(a) == LET w == Trim(a) IN 8 * (Len(w) - 1) + TopB(w[Len(w)])      \* 0 for zero
Shl(a, k) == IF k = 0 THEN a ELSE ShlW(ZExt(a, Len(a) + (k \div 8) + 1), k)
Shr0(a, k) == IF k >= 8 * Len(a) THEN <<0>> ELSE IF k = 0 THEN a ELSE ShrW(a, k)
\* Whether any of the low k bits is set.
AnyLow(a, k) == \E i \in 1..MinI((k + 7) \div 8, Len(a)) : (IF 8 * i <= k THEN a[i] ELSE a[i] % (2 ^ (k % 8))) # 0
BitAt(a, k) == IF k < 0 \/ k >= 8 * Len(a) THEN 0 ELSE Bit(a, k)
AddN(a, b) == LET n == MaxI(Len(a), Len(b)) + 1 IN AddW(Fit(a, n), Fit(b, n))
SubN(a, b) == LET n == MaxI(Len(a), Len(b)) IN SubW(Fit(a, n), Fit(b, n))   \* a >= b
CmpN(a, b) == LET n == MaxI(Len(a), Len(b)) IN CmpU(Fit(a, n), Fit(b, n))
OneW == <<1>>
\* m1 * 2^e1 against m2 * 2^e2
CmpX(m1, e1, m2, e2) ==
  LET l1 == BitLen(m1)  l2 == BitLen(m2)
  IN IF l1 = 0 \/ l2 = 0 THEN (IF l1 = l2 THEN 0 ELSE IF l1 = 0 THEN -1 ELSE 1)
     ELSE IF (l1 + e1) # (l2 + e2) THEN (IF (l1 + e1) < (l2 + e2) THEN -1 ELSE 1)
     ELSE IF e1 >= e2 THEN CmpN(Shl(m1, e1 - e2), m2) ELSE CmpN(m1, Shl(m2, e2 - e1))

\* ---- decoding
Field(t, b) == CASE t = "f16" -> (b[2] % 128) \div 4 [] t = "bf16" -> ((b[2] % 128) * 2) + (b[1] \div 128)
                 [] t = "f32" -> ((b[4] % 128) * 2) + (b[3] \div 128) [] t = "f64" -> ((b[8] % 128) * 16) + (b[7] \div 16)
Frac(t, b) == CASE t = "f16" -> <<b[1], b[2] % 4>> [] t = "bf16" -> <<b[1] % 128>>
                [] t = "f32" -> <<b[1], b[2], b[3] % 128>> [] t = "f64" -> <<b[1], b[2], b[3], b[4], b[5], b[6], b[7] % 16>>
Hidden(t) == CASE t = "f16" -> <<0, 4>> [] t = "bf16" -> <<128>> [] t = "f32" -> <<0, 0, 128>> [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 16>>
Dec(t, b) ==
  LET f == Field(t, b)  m == Frac(t, b)  s == b[Size(t)] \div 128
  IN IF f = MaxField(t) THEN [c |-> IF IsZero(m) THEN "inf" ELSE "nan", s |-> s, m |-> <<0>>, e |-> 0]
     ELSE IF f = 0 THEN [c |-> "fin", s |-> s, m |-> m, e |-> MinE(t)]
     ELSE [c |-> "fin", s |-> s, m |-> AddW(m, Hidden(t)), e |-> MinE(t) + f - 1]
Mag(t, b) == LET n == Size(t) IN SubSeq([b EXCEPT ![n] = b[n] % 128], 1, n)   \* without the sign
WithSign(s, mag) == LET n == Len(mag) IN SubSeq([mag EXCEPT ![n] = mag[n] + 128 * s], 1, n)
IsNaNV(x) == x.c = "nan"
IsInfV(x) == x.c = "inf"
IsFin(x) == x.c = "fin"
IsZ(x) == x.c = "fin" /\ IsZero(x.m)
Fin(s, m, e) == [c |-> "fin", s |-> s, m |-> m, e |-> e]
Inf(s) == [c |-> "inf", s |-> s, m |-> <<0>>, e |-> 0]
NaN == [c |-> "nan", s |-> 0, m |-> <<0>>, e |-> 0]
IntVal(sgn, a) == IF sgn /\ IsNeg(a) THEN Fin(1, NegW(a), 0) ELSE Fin(0, a, 0)

\* ---- rounding: magnitude encoding of (m + something in (0,1) if st) * 2^e
RoundMag(t, m, e, st) ==
  LET L == BitLen(m)  n == Size(t)  p == Prec(t)
      q == MaxI((e + L) - p, MinE(t))
      k == q - e
      up == BitAt(m, k - 1) = 1 /\ (AnyLow(m, k - 1) \/ st \/ BitAt(m, k) = 1)
      mant == IF k <= 0 THEN Fit(Shl(m, -k), n) ELSE LET x == Fit(Shr0(m, k), n) IN IF up THEN AddW(x, Fit(OneW, n)) ELSE x
  IN IF L = 0 THEN Zero(n)
     ELSE IF (e + L) - 1 > MaxE(t) THEN InfMag(t)
     ELSE AddW(Fit(Shl(W(q - MinE(t), 2), p - 1), n), mant)
Enc(t, x) == IF x.c = "inf" THEN WithSign(x.s, InfMag(t)) ELSE WithSign(x.s, RoundMag(t, x.m, x.e, FALSE))
\* r is an encoding of the rounded value (any not-a-number for a not-a-number).
Is(t, r, x) == IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE r = Enc(t, x)
\* As above, where the sign of a zero is unspecified.
IsNum(t, r, x) == IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE LET w == Enc(t, x) IN r = w \/ (IsZero(Mag(t, w)) /\ IsZero(Mag(t, r)))

\* ---- exact arithmetic
Neg(x) == [x EXCEPT !.s = 1 - x.s]
Abs(x) == [x EXCEPT !.s = 0]
\* Exact sum of finite values; far apart operands are replaced by a nearby one with the same rounding.
SumFin(x, y) ==
  LET big == IF BitLen(x.m) + x.e >= BitLen(y.m) + y.e THEN x ELSE y
      sml == IF BitLen(x.m) + x.e >= BitLen(y.m) + y.e THEN y ELSE x
      far == (BitLen(big.m) + big.e) - (BitLen(sml.m) + sml.e) > 240
      s2 == IF far THEN Fin(sml.s, OneW, big.e - 64) ELSE sml
      e == MinI(big.e, s2.e)
      a == Shl(big.m, big.e - e)  b == Shl(s2.m, s2.e - e)
  IN IF IsZero(x.m) /\ IsZero(y.m) THEN Fin(IF x.s = y.s THEN x.s ELSE 0, <<0>>, 0)
     ELSE IF IsZero(x.m) THEN y ELSE IF IsZero(y.m) THEN x
     ELSE IF big.s = s2.s THEN Fin(big.s, Trim(AddN(a, b)), e)
     ELSE LET c == CmpN(a, b) IN IF c = 0 THEN Fin(0, <<0>>, 0)
                                 ELSE IF c > 0 THEN Fin(big.s, Trim(SubN(a, b)), e) ELSE Fin(s2.s, Trim(SubN(b, a)), e)
AddX(x, y) ==
  IF IsNaNV(x) \/ IsNaNV(y) THEN NaN
  ELSE IF IsInfV(x) THEN (IF IsInfV(y) /\ x.s # y.s THEN NaN ELSE x)
  ELSE IF IsInfV(y) THEN y ELSE SumFin(x, y)
SubX(x, y) == IF IsNaNV(y) THEN NaN ELSE AddX(x, Neg(y))
MulXF(x, y) ==
  LET s == IF x.s = y.s THEN 0 ELSE 1
  IN IF IsNaNV(x) \/ IsNaNV(y) THEN NaN
     ELSE IF IsInfV(x) \/ IsInfV(y) THEN (IF IsZ(x) \/ IsZ(y) THEN NaN ELSE Inf(s))
     ELSE IF IsZ(x) \/ IsZ(y) THEN Fin(s, <<0>>, 0) ELSE Fin(s, Trim(MulU(x.m, y.m)), x.e + y.e)
\* The value after rounding to t.
Rnd(t, x) == IF IsNaNV(x) THEN x ELSE Dec(t, Enc(t, x))
\* a * b + c, rounded once or twice
IsMulAdd(t, r, a, b, c) == LET p == MulXF(a, b) IN Is(t, r, AddX(p, c)) \/ Is(t, r, AddX(Rnd(t, p), c))

\* ---- correct rounding as a relation: C(m, e) is the sign of (exact value - m * 2^e)
MidAbove(t, mag) == IF IsZero(mag) THEN Fin(0, OneW, MinE(t) - 1) ELSE LET d == Dec(t, mag) IN Fin(0, AddN(AddN(d.m, d.m), OneW), d.e - 1)
IsRN(t, mag, C(_, _)) ==
  LET even == mag[1] % 2 = 0  n == Size(t)
  IN /\ CmpU(mag, InfMag(t)) <= 0
     /\ mag # InfMag(t) => LET h == MidAbove(t, mag)  c == C(h.m, h.e) IN c < 0 \/ (c = 0 /\ even)
     /\ ~IsZero(mag) => LET l == MidAbove(t, SubW(mag, Fit(OneW, n)))  c == C(l.m, l.e) IN c > 0 \/ (c = 0 /\ even)
IsDiv(t, r, a, b) ==
  LET s == IF a.s = b.s THEN 0 ELSE 1
      C(m, e) == CmpX(a.m, a.e, MulU(m, b.m), e + b.e)
  IN IF IsNaNV(a) \/ IsNaNV(b) \/ (IsInfV(a) /\ IsInfV(b)) \/ (IsZ(a) /\ IsZ(b)) THEN IsNaNV(Dec(t, r))
     ELSE IF IsInfV(a) \/ IsZ(b) THEN r = WithSign(s, InfMag(t))
     ELSE IF IsInfV(b) \/ IsZ(a) THEN r = WithSign(s, Zero(Size(t)))
     ELSE r[Size(t)] \div 128 = s /\ IsRN(t, Mag(t, r), C)
IsSqrt(t, r, a) ==
  LET C(m, e) == CmpX(a.m, a.e, MulU(m, m), 2 * e)
  IN IF IsNaNV(a) \/ (a.s = 1 /\ ~IsZ(a)) THEN IsNaNV(Dec(t, r))
     ELSE IF IsInfV(a) \/ IsZ(a) THEN r = WithSign(a.s, IF IsInfV(a) THEN InfMag(t) ELSE Zero(Size(t)))
     ELSE r[Size(t)] \div 128 = 0 /\ IsRN(t, Mag(t, r), C)

\* ---- rounding to integers
\* Integer magnitude of a finite value, in the given mode; fractions: sign-aware for floor/ceil
IntMag(mode, x) ==
  LET k == -x.e
      i == Shr0(x.m, k)
      frac == AnyLow(x.m, k)
      up == CASE mode = "near" -> BitAt(x.m, k - 1) = 1 /\ (AnyLow(x.m, k - 1) \/ BitAt(i, 0) = 1)
              [] mode = "trunc" -> FALSE [] mode = "floor" -> x.s = 1 /\ frac [] mode = "ceil" -> x.s = 0 /\ frac
  IN IF x.e >= 0 THEN Shl(x.m, MinI(x.e, 1100)) ELSE IF up THEN AddN(i, OneW) ELSE i
RoundV(mode, x) == IF ~IsFin(x) \/ x.e >= 0 THEN x ELSE Fin(x.s, Trim(IntMag(mode, x)), 0)
\* Conversion to an integer type, saturating.
ToInt(mode, to, x) ==
  LET n == Size(to)  sgn == Signed(to)
      lo == MinOf(sgn, n)  hi == MaxOf(sgn, n)
      big == IsInfV(x) \/ (BitLen(x.m) + x.e > 8 * n + 1 /\ ~IsZero(x.m))
      i == Trim(IntMag(mode, x))
      w == Fit(i, MaxI(Len(i), n) + 1)
      v == IF x.s = 1 THEN NegW(w) ELSE w
  IN IF big THEN (IF x.s = 1 THEN lo ELSE hi) ELSE Sat(sgn, v, n)
InRange(mode, to, x) ==   \* the rounded value is representable
  IsFin(x) /\ (IsZero(x.m) \/ (BitLen(x.m) + x.e <= 8 * Size(to) + 1
     /\ LET i == Trim(IntMag(mode, x))  n == Size(to)  w == Fit(i, MaxI(Len(i), n) + 1)  v == IF x.s = 1 THEN NegW(w) ELSE w
        IN v = Ext(Signed(to), Trunc(v, n), Len(v))))

\* ---- comparison of non-NaN values: -1, 0, 1
CmpF(x, y) ==
  LET mx == IF IsInfV(x) THEN 2 ELSE IF IsZ(x) THEN 0 ELSE 1
      my == IF IsInfV(y) THEN 2 ELSE IF IsZ(y) THEN 0 ELSE 1
      mag == IF mx # my THEN (IF mx < my THEN -1 ELSE 1) ELSE IF mx # 1 THEN 0 ELSE CmpX(x.m, x.e, y.m, y.e)
      sx == IF mx = 0 THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
      sy == IF my = 0 THEN 0 ELSE IF y.s = 1 THEN -1 ELSE 1
  IN IF sx # sy THEN (IF sx < sy THEN -1 ELSE 1) ELSE IF sx = 1 THEN mag ELSE IF sx = -1 THEN -mag ELSE 0
Unord(x, y) == IsNaNV(x) \/ IsNaNV(y)
=============================================================================
