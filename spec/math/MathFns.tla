------------------------------ MODULE MathFns ------------------------------
(* The vector math functions of hwy/contrib/math as relations between argument and result: the
   true value, rounded, lies within the documented number of units in the last place.  With
   ordinals counting the representable numbers, the true value of f(x) must lie between the
   midpoints below and above the k-neighbourhood of the result.  Functions without a power series
   here are compared through their (monotone) inverse: f(x) >= v iff P <= Q for a pair
   <<P, Q>> of quantities that only need the series of exp, sinh, sin and cos.                        *)
EXTENDS RealFns

MaxUlp(f) == CASE f \in {"Exp"} -> 1
               [] f \in {"SinCosS", "SinCosC"} -> 1
               [] f \in {"Acos", "Asin", "Exp2", "Log10", "Log1p", "Log2"} -> 2
               [] f \in {"Acosh", "Asinh", "Atan", "Atanh", "Cos", "Sin"} -> 3
               [] f \in {"Expm1", "Log", "Sinh", "Tanh", "Hypot"} -> 4
               [] f = "Atan2" -> 8                                \* not documented
-----------------------------------------------------------------------------
\* Ordinals as two's complement words of one more byte; the one after the largest
\* finite number stands for infinity, here with its value were the exponent unbounded.
OrdW(t, b) == LET m == Append(Mag(t, b), 0) IN IF b[Size(t)] >= 128 THEN NegW(m) ELSE m
AddOrd(o, k) == AddW(o, W(k, Len(o)))
Beyond(t, o) == CmpU(AbsW(o), Append(InfMag(t), 0)) > 0
OrdVal(t, o) ==
  LET s == IF IsNeg(o) THEN 1 ELSE 0  m == Trunc(AbsW(o), Size(t))  d == Dec(t, m)
  IN IF d.c = "inf" THEN FromWord(s, <<1>>, MaxE(t) + 1) ELSE FromWord(s, d.m, d.e)
\* Halfway between the numbers with ordinals o and o + 1.
MidV(t, o) == DivSmallK(AddK(OrdVal(t, o), OrdVal(t, AddOrd(o, 1)), 20), 2, 20)
Arg(t, b) == LET d == Dec(t, b) IN FromWord(d.s, d.m, d.e)
-----------------------------------------------------------------------------
Yes == <<ZeroB, OneB>>
No == <<OneB, ZeroB>>
Two(x) == MulSmall(x, 2)
Half(x) == DivSmall(x, 2)
\* 2 sin^2(w / 2) = 1 - cos(w)
VersB(w) == LET s == SinCos(Half(w))[1] IN Two(MulB(s, s))
PiB26 == <<1, PIO2[2], Carry(SubSeq([i \in 1..26 |-> 2 * PIO2[3][i]], 1, 26), 1, 0, << >>)>>
Minus1(x) == SubExact(x, OneB)
TinyB == <<1, -90, <<1>>>>                       \* below every positive float

\* Value of the functions with a series
HasValue(f) == f \in {"Exp", "Exp2", "Expm1", "Sinh", "Sin", "Cos", "SinCosS", "SinCosC"}
Value(f, x) ==
  CASE f = "Exp" -> IF CmpB(x, IntB(-800)) < 0 THEN TinyB ELSE Exp(x)
    [] f = "Exp2" -> IF CmpB(x, IntB(-1200)) < 0 THEN TinyB ELSE Exp(MulK(x, LN2, 24))
    [] f = "Expm1" -> IF CmpB(x, IntB(-100)) < 0 THEN NegB(OneB) ELSE Expm1(x)
    [] f = "Sinh" -> Sinh(x)
    [] f \in {"Sin", "SinCosS"} -> SinCos(x)[1]
    [] f \in {"Cos", "SinCosC"} -> SinCos(x)[2]
\* e^v - 1 against x - 1
LogPair(v, x) == IF SmallB(v, EighthB) THEN <<Expm1(v), Minus1(x)>> ELSE <<Exp(v), x>>
\* Pairs <<P, Q>> with P <= Q iff f(x) >= v
Pair(f, x, v) ==
  CASE f # "Tanh" /\ ~SmallB(v, IntB(2000)) -> IF v[1] > 0 THEN No ELSE Yes      \* all values are below 2000
    [] f = "Log" -> LogPair(v, x)
    [] f = "Log2" -> LogPair(MulB(v, LN2), x)
    [] f = "Log10" -> LogPair(MulB(v, LN10), x)
    [] f = "Log1p" -> <<Expm1(v), x>>
    [] f = "Asinh" -> <<Sinh(v), x>>
    [] f = "Acosh" -> IF v[1] < 0 THEN Yes ELSE LET s == Sinh(Half(v)) IN <<Two(MulB(s, s)), Minus1(x)>>
    [] f = "Atanh" -> IF SmallB(v, HalfB) THEN <<Sinh(v), MulB(x, Cosh(v))>>
                      ELSE <<MulB(Exp(Two(v)), SubExact(OneB, x)), AddK(OneB, x, 60)>>
    [] f = "Tanh" -> IF CmpB(x, IntB(40)) > 0 THEN <<v, OneB>>
                     ELSE IF CmpB(x, IntB(-40)) < 0 THEN <<v, NegB(OneB)>>
                     ELSE <<MulB(v, Cosh(x)), Sinh(x)>>
    [] f = "Asin" -> IF CmpB(v, PIO2) >= 0 THEN No
                     ELSE IF CmpB(v, NegB(PIO2)) <= 0 THEN Yes
                     ELSE IF CmpB(v, OneB) > 0 THEN <<NegB(VersB(RoundB(AddK(PIO2, NegB(v), 26)))), Minus1(x)>>
                     ELSE IF CmpB(v, NegB(OneB)) < 0 THEN <<VersB(RoundB(AddK(PIO2, v, 26))), AddK(x, OneB, 60)>>
                     ELSE <<SinCos(v)[1], x>>
    [] f = "Acos" -> IF v[1] < 0 THEN Yes ELSE IF CmpB(v, PiB26) >= 0 THEN No
                     ELSE IF CmpB(v, OneB) < 0 THEN <<VersB(v), SubExact(OneB, x)>>
                     ELSE IF CmpB(v, IntB(2)) > 0 THEN <<NegB(VersB(RoundB(AddK(PiB26, NegB(v), 26)))), NegB(AddK(x, OneB, 60))>>
                     ELSE <<NegB(SinCos(v)[2]), NegB(x)>>
    [] f = "Atan" -> IF CmpB(v, PIO2) >= 0 THEN No ELSE IF CmpB(v, NegB(PIO2)) <= 0 THEN Yes
                     ELSE LET sc == SinCos(v) IN <<sc[1], MulB(x, sc[2])>>
Slack(p, q) == AddB(AbsB(p), AbsB(q))
Fuzz2(p, q) == LET z == Slack(p, q) IN IF IsZeroB(z) THEN z ELSE <<1, z[2] - 7, z[3]>>
LeP(p, q) == CmpB(p, AddB(q, Fuzz2(p, q))) <= 0
AtLeast(pq) == LeP(pq[1], pq[2])
AtMost(pq) == LeP(pq[2], pq[1])
\* R(v) is the pair for bound v, C the limits of the neighbourhood
Within(t, y, k, R(_)) ==
  LET o == OrdW(t, y)  a == AddOrd(o, -k - 1)  b == AddOrd(o, k + 1)
  IN /\ ~IsNaNV(Dec(t, y))
     /\ Beyond(t, a) \/ AtLeast(R(MidV(t, a)))
     /\ Beyond(t, b) \/ AtMost(R(MidV(t, AddOrd(b, -1))))
Unary(f, t, x, y, k) ==
  LET a == Arg(t, x)
  IN IF HasValue(f) THEN LET q == Value(f, a)  R(v) == <<v, q>> IN Within(t, y, k, R)
     ELSE LET R(v) == Pair(f, a, v) IN Within(t, y, k, R)
-----------------------------------------------------------------------------
HypotOk(t, a, b, y) ==
  LET da == Dec(t, a)  db == Dec(t, b)  va == FromWord(0, da.m, da.e)  vb == FromWord(0, db.m, db.e)
      q == AddK(MulK(va, va, 20), MulK(vb, vb, 20), 20)
      R(v) == IF v[1] < 0 THEN Yes ELSE <<MulK(v, v, 20), q>>
  IN IF IsInfV(da) \/ IsInfV(db) THEN y = InfMag(t)
     ELSE IF IsNaNV(da) \/ IsNaNV(db) THEN IsNaNV(Dec(t, y))
     ELSE Within(t, y, MaxUlp("Hypot"), R)
\* atan2(b, a) of the point (a, b): the special values of C, otherwise the angle v in (0, pi) with the
\* sign of b satisfies a sin v = b cos v.
Angle4(t, s, q, y) ==       \* y is the angle q * pi / 4 within an ulp, sign s
  LET v == DivSmallK(MulK(PIO2, IntB(q), 26), 2, 26)  R(u) == <<u, v>>
  IN /\ y[Size(t)] \div 128 = s
     /\ IF q = 0 THEN IsZero(Mag(t, y)) ELSE Within(t, Mag(t, y), 1, R)
Atan2Ok(t, b, a, y) ==
  LET da == Dec(t, a)  db == Dec(t, b)
      va == FromWord(da.s, da.m, da.e)  vb == FromWord(0, db.m, db.e)
      R(v) == IF v[1] < 0 \/ IsZeroB(v) THEN Yes ELSE IF CmpB(v, PiB26) >= 0 THEN No
              ELSE LET sc == SinCos(v) IN <<MulB(va, sc[1]), MulB(vb, sc[2])>>
  IN IF IsNaNV(da) \/ IsNaNV(db) THEN IsNaNV(Dec(t, y))
     ELSE IF IsInfV(db) THEN Angle4(t, db.s, IF ~IsInfV(da) THEN 2 ELSE IF da.s = 0 THEN 1 ELSE 3, y)
     ELSE IF IsInfV(da) \/ IsZ(db) THEN Angle4(t, db.s, IF da.s = 0 THEN 0 ELSE 4, y)
     ELSE IF IsZ(da) THEN Angle4(t, db.s, 2, y)
     ELSE /\ IsNaNV(Dec(t, y)) \/ y[Size(t)] \div 128 = db.s
          /\ Within(t, Mag(t, y), MaxUlp("Atan2"), R)
=============================================================================
