------------------------------ MODULE RealFns ------------------------------
(* Elementary functions of BigFloat numbers, from their power series. *)
EXTENDS BigFloat, TLC
\* Constants to 26 limbs, checked against series below.
LN2 == <<1, -26, <<5717, 4874, 2988, 879, 7560, 3952, 702, 5501, 3630, 747, 2573, 4460, 1581, 3301, 5170, 121, 6845, 7774, 6147, 7580, 4728, 4951, 7415, 7144, 2143, 5678>>>>
LN10 == <<1, -25, <<3686, 65, 5685, 727, 4472, 7333, 90, 31, 3905, 3864, 464, 7673, 3794, 6974, 1311, 654, 2437, 3595, 6853, 2646, 183, 2603, 6997, 6365, 2478, 2>>>>
PIO2 == <<1, -25, <<6011, 2057, 6371, 1084, 1320, 1098, 5019, 4568, 4009, 1047, 1856, 5094, 553, 2497, 2306, 1673, 5895, 5889, 1576, 611, 2259, 3352, 545, 7893, 4675, 1>>>>
INVLN2 == <<1, -4, <<766, 2396, 4569, 3626, 1>>>>
INVPIO2 == <<1, -5, <<2643, 1089, 5927, 1549, 5215>>>>
-----------------------------------------------------------------------------
\* 1 + (x/(a))(1 + (x/(a'))( ... )) where the divisors are D(1), D(2), .. D(n)
RECURSIVE HornerR(_, _, _, _)
HornerR(x, D(_), i, acc) == IF i = 0 THEN acc ELSE HornerR(x, D, i - 1, AddB(OneB, DivSmall(MulB(x, acc), D(i))))
Horner(x, D(_), n) == HornerR(x, D, n, OneB)
Fact(i) == i
Succ(i) == i + 1
Odd2(i) == (2 * i) * (2 * i + 1)
Even2(i) == (2 * i - 1) * (2 * i)
HalfB == <<1, -1, <<4096>>>>
EighthB == <<1, -1, <<1024>>>>
SmallB(x, b) == CmpAbs(x, b) < 0
RECURSIVE SquareB(_, _)
SquareB(x, n) == IF n = 0 THEN x ELSE SquareB(MulB(x, x), n - 1)
\* e^t for |t| < 2^12
Exp(t) == IF IsZeroB(t) THEN OneB
  ELSE LET n == RoundInt(MulB(t, INVLN2))
           r == RoundB(AddK(t, NegB(MulK(IntB(n), LN2, 24)), 24))
           p == Horner(DivSmall(r, 64), Fact, 12)
       IN ScaleB(SquareB(p, 6), n)
\* e^t - 1
Expm1(t) == IF IsZeroB(t) THEN ZeroB ELSE IF SmallB(t, EighthB) THEN MulB(t, Horner(t, Succ, 22)) ELSE SubB(Exp(t), OneB)
Sinh(t) == IF IsZeroB(t) THEN ZeroB
  ELSE IF SmallB(t, HalfB) THEN MulB(t, Horner(MulB(t, t), Odd2, 15))
  ELSE DivSmall(SubB(Exp(t), Exp(NegB(t))), 2)
Cosh(t) == DivSmall(AddB(Exp(t), Exp(NegB(t))), 2)
\* <<sin t, cos t>> for |t| <= 0.8
SinR(r) == IF IsZeroB(r) THEN r ELSE MulB(r, Horner(NegB(MulB(r, r)), Odd2, 14))
CosR(r) == Horner(NegB(MulB(r, r)), Even2, 14)
\* <<sin t, cos t>> for |t| < 2^25; relative error below 2^-100 for 64-bit floats t
SinCos(t) ==
  LET k == RoundInt(MulB(t, INVPIO2))
      r == RoundB(AddK(t, NegB(MulK(IntB(k), PIO2, 26)), 26))
      s == SinR(r)  c == CosR(r)
  IN CASE k % 4 = 0 -> <<s, c>> [] k % 4 = 1 -> <<c, NegB(s)>> [] k % 4 = 2 -> <<NegB(s), NegB(c)>> [] OTHER -> <<NegB(c), s>>
PiB == MulSmall(RoundB(PIO2), 2)
PiHalfB == RoundB(PIO2)
-----------------------------------------------------------------------------
\* The constants: Machin-like formulae with 24 limbs.
RECURSIVE AtanInv(_, _, _, _, _)
\* sum of sg^j / ((2j+1) q^(2j+1)), p = 1/q^(2j+1)
AtanInv(q, sg, j, p, acc) ==
  IF IsZeroB(p) \/ Top(p) < -27 THEN acc
  ELSE AtanInv(q, sg, j + 1, DivSmallK(DivSmallK(p, q, 28), q, 28),
               AddK(acc, LET term == DivSmallK(p, 2 * j + 1, 28) IN IF sg = -1 /\ j % 2 = 1 THEN NegB(term) ELSE term, 28))
AtanQ(q) == AtanInv(q, -1, 0, DivSmallK(OneB, q, 28), ZeroB)
AtanhQ(q) == AtanInv(q, 1, 0, DivSmallK(OneB, q, 28), ZeroB)
Times(x, k) == MulK(x, IntB(k), 28)
Close(x, y) == LET d == AddK(x, NegB(y), 30) IN IsZeroB(d) \/ Top(d) < -22
ASSUME Close(PIO2, AddK(Times(AtanQ(5), 8), NegB(Times(AtanQ(239), 2)), 28))
ASSUME Close(LN2, AddK(AddK(Times(AtanhQ(26), 18), NegB(Times(AtanhQ(4801), 2)), 28), Times(AtanhQ(8749), 8), 28))
ASSUME Close(LN10, AddK(Times(LN2, 3), Times(AtanhQ(9), 2), 28))
ASSUME LET d == SubB(MulB(INVLN2, LN2), OneB) IN IsZeroB(d) \/ Top(d) < -3
ASSUME LET d == SubB(MulB(INVPIO2, PIO2), OneB) IN IsZeroB(d) \/ Top(d) < -3
\* The functions agree with identities.
Near(x, y) == LET d == SubB(x, y) IN IsZeroB(d) \/ Top(d) - MaxI(Top(x), Top(y)) < -7
ASSUME Near(Exp(LN2), IntB(2)) /\ Near(Exp(LN10), IntB(10)) /\ Near(MulB(Exp(IntB(700)), Exp(IntB(-700))), OneB)
ASSUME \A k \in {-3, 1, 5, 17, 400} : LET x == DivSmall(IntB(k), 7)  sc == SinCos(x) IN
          /\ Near(AddB(MulB(sc[1], sc[1]), MulB(sc[2], sc[2])), OneB)
          /\ Near(SinCos(MulSmall(x, 2))[1], MulSmall(MulB(sc[1], sc[2]), 2))
          /\ Near(Sinh(x), DivSmall(SubB(Exp(x), Exp(NegB(x))), 2))
          /\ Near(Expm1(DivSmall(x, 5)), SubB(Exp(DivSmall(x, 5)), OneB))
=============================================================================
