----------------------------- MODULE FloatLanes -----------------------------
(* Floating-point arithmetic, rounding, classification and comparison of lanes
   (quick_reference: Arithmetic, Min/Max, Multiply, Fused multiply-add, Complex
   number operations, Floating-point rounding / classification, Logical,
   Compare).  Deviations that the documentation leaves open:
   - not-a-number results carry any payload and sign,
   - Min/Max and friends with a not-a-number operand, the sign of a zero when both operands are zeros,
   - multiply-add rounds once or twice,
   - the sign test of IfNegative* for -0 and not-a-number (documented as "v < 0").            *)
EXTENDS FloatOps
IsB(t, r, cond) == r = (IF cond THEN Ones(Size(t)) ELSE Zero(Size(t)))
BothZero(t, a, r) == IsZero(Mag(t, a)) /\ IsZero(Mag(t, r))
\* r is the value a, where zeros of either sign are the same.
Same(t, r, a) == r = a \/ BothZero(t, a, r) \/ (IsNaNV(Dec(t, a)) /\ IsNaNV(Dec(t, r)))
FMin(t, a, b) == IF CmpF(Dec(t, a), Dec(t, b)) <= 0 THEN a ELSE b
FMax(t, a, b) == IF CmpF(Dec(t, a), Dec(t, b)) >= 0 THEN a ELSE b
CmpMag(t, a, b) == CmpU(Mag(t, a), Mag(t, b))
MinMag(t, a, b) == IF CmpMag(t, a, b) < 0 \/ (CmpMag(t, a, b) = 0 /\ CmpF(Dec(t, a), Dec(t, b)) < 0) THEN a ELSE b
MaxMag(t, a, b) == IF CmpMag(t, a, b) < 0 \/ (CmpMag(t, a, b) = 0 /\ CmpF(Dec(t, a), Dec(t, b)) < 0) THEN b ELSE a
\* Value of v < 0 where documented: TRUE/FALSE, or both for operands with a set sign bit that are not below zero.
NegTest(t, v) == LET x == Dec(t, v) IN IF IsNaNV(x) \/ (IsZ(x) /\ x.s = 1) THEN {TRUE, FALSE} ELSE {x.s = 1}
\* a * b + c with one or two roundings; a fused result may also differ in the sign of an underflowed zero.
MulAddOK(t, r, a, b, c) == IsMulAdd(t, r, a, b, c)
\* Multiplication by a power of two
Scaled(x, k) == IF IsFin(x) THEN [x EXCEPT !.e = x.e + k] ELSE x
\* A signed word as a small integer, clamped to +-5000 (beyond every exponent range).
Lim == <<136, 19, 0, 0, 0, 0, 0, 0>>
RECURSIVE NatR(_, _)
NatR(w, k) == IF k > Len(w) THEN 0 ELSE w[k] + 256 * NatR(w, k + 1)
ClampI(w) == LET s == Ext(TRUE, w, 9)  m == IF IsNeg(w) THEN NegW(s) ELSE s
             IN IF CmpU(m, ZExt(Lim, 9)) > 0 THEN (IF IsNeg(w) THEN -5000 ELSE 5000) ELSE IF IsNeg(w) THEN -NatR(m, 1) ELSE NatR(m, 1)
\* floor(y) of a finite value, clamped likewise
FloorI(y) == IF BitLen(y.m) + y.e > 14 /\ ~IsZero(y.m) THEN (IF y.s = 1 THEN -5000 ELSE 5000)
             ELSE LET m == NatR(Trim(IntMag("floor", y)), 1) IN IF y.s = 1 THEN -m ELSE m
\* |r * a - 1| < 2^-6 for the approximations of 1 / a and (with a = q * q) 1 / sqrt(q)
Near1(p) == IsFin(p) /\ p.s = 0 /\ CmpF(p, Fin(0, <<63>>, -6)) > 0 /\ CmpF(p, Fin(0, <<65>>, -6)) < 0
Moderate(t, x) == IsFin(x) /\ ~IsZero(x.m) /\ BitLen(x.m) + x.e > -(MaxE(t) \div 2) /\ BitLen(x.m) + x.e < MaxE(t) \div 2
\* The exponent (floor(log2 |x|)) of a value.
ExpI(x) == BitLen(x.m) + x.e - 1
IntV(k) == IF k < 0 THEN Fin(1, W(-k, 2), 0) ELSE Fin(0, W(k, 2), 0)
IsNormal(t, b) == Field(t, b) # 0 /\ Field(t, b) # MaxField(t)
\* Lane with parity p (0 even, 1 odd) of a - b / a + b.
Cplx(x, y, u, v, conj) ==   \* (x + iy)(u + iv), v negated if conj
  LET vv == IF conj THEN Neg(v) ELSE v IN <<SubX(MulXF(x, u), MulXF(y, vv)), AddX(MulXF(x, vv), MulXF(y, u))>>
IsExact(t, r, x) == IsNum(t, r, x)     \* sign of a zero result unspecified
Lanes2(t, c, k) == LET z == Size(t)  n == Len(c) \div (4 * z) IN Chunk(SubSeq(c, (k - 1) * n * z + 1, k * n * z), z)
ComplexOK(op, t, c) ==
  LET a == Lanes2(t, c, 1)  b == Lanes2(t, c, 2)  d == Lanes2(t, c, 3)  r == Lanes2(t, c, 4)  v(w) == Dec(t, w)
  IN \A j \in 1..(Len(a) \div 2) : LET e == 2 * j - 1  o == 2 * j
       p == Cplx(v(a[e]), v(a[o]), v(b[e]), v(b[o]), op \in {"MulComplexConj", "MulComplexConjAdd"})
     IN CASE op = "ComplexConj" -> IsExact(t, r[e], v(a[e])) /\ IsExact(t, r[o], Neg(v(a[o])))
          [] op \in {"MulComplex", "MulComplexConj"} -> IsExact(t, r[e], p[1]) /\ IsExact(t, r[o], p[2])
          [] OTHER -> IsExact(t, r[e], AddX(p[1], v(d[e]))) /\ IsExact(t, r[o], AddX(p[2], v(d[o])))
ComplexOps == {"ComplexConj", "MulComplex", "MulComplexConj", "MulComplexAdd", "MulComplexConjAdd"}
\* op with operand lanes a, b, c and result r; p: parity of the lane
Lane1(op, t, a, r) ==
  LET x == Dec(t, a)
  IN CASE op = "Sqrt" -> IsSqrt(t, r, x)
       [] op = "Neg" -> IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE r = WithSign(1 - x.s, Mag(t, a))
       [] op = "Abs" -> IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE r = Mag(t, a)
       [] op = "Round" -> Is(t, r, RoundV("near", x))
       [] op = "Trunc" -> Is(t, r, RoundV("trunc", x))
       [] op = "Ceil" -> Is(t, r, RoundV("ceil", x))
       [] op = "Floor" -> Is(t, r, RoundV("floor", x))
       [] op = "IsNaN" -> IsB(t, r, IsNaNV(x))
       [] op = "IsInf" -> IsB(t, r, IsInfV(x))
       [] op = "IsFinite" -> IsB(t, r, IsFin(x))
       [] op = "ZeroIfNegative" -> \E s \in NegTest(t, a) : Same(t, r, IF s THEN Zero(Size(t)) ELSE a)
       [] op = "GetBiasedExponent" -> r = Fit(W(Field(t, a), 2), Size(t))
       [] op = "GetExponent" -> IsNormal(t, a) => Is(t, r, IntV(ExpI(x)))
       [] op = "ApproximateReciprocal" -> Moderate(t, x) => Near1(MulXF(x, Dec(t, r)))
       [] op = "ApproximateReciprocalSqrt" -> (Moderate(t, x) /\ x.s = 0) => (Dec(t, r).s = 0 /\ Near1(MulXF(x, MulXF(Dec(t, r), Dec(t, r)))))
       [] OTHER -> FALSE
Lane2(op, t, a, b, r, p) ==
  LET x == Dec(t, a)  y == Dec(t, b)  u == Unord(x, y)
  IN CASE op = "Add" \/ (op = "AddSub" /\ p = 1) -> Is(t, r, AddX(x, y))
       [] op = "Sub" \/ (op = "AddSub" /\ p = 0) -> Is(t, r, SubX(x, y))
       [] op = "Mul" -> Is(t, r, MulXF(x, y))
       [] op = "Div" -> IsDiv(t, r, x, y)
       [] op = "AbsDiff" -> LET s == SubX(x, y) IN Is(t, r, IF IsNaNV(s) THEN s ELSE Abs(s))
       [] op = "Min" -> u \/ Same(t, r, FMin(t, a, b))
       [] op = "Max" -> u \/ Same(t, r, FMax(t, a, b))
       [] op = "MinMagnitude" -> u \/ Same(t, r, MinMag(t, a, b))
       [] op = "MaxMagnitude" -> u \/ Same(t, r, MaxMag(t, a, b))
       [] op = "CopySign" -> IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE r = WithSign(b[Size(t)] \div 128, Mag(t, a))
       [] op = "CopySignToAbs" -> IF IsNaNV(x) THEN IsNaNV(Dec(t, r)) ELSE r = WithSign(b[Size(t)] \div 128, Mag(t, a))
       [] op = "IfNegativeThenElseZero" -> \E s \in NegTest(t, a) : Same(t, r, IF s THEN b ELSE Zero(Size(t)))
       [] op = "IfNegativeThenZeroElse" -> \E s \in NegTest(t, a) : Same(t, r, IF s THEN Zero(Size(t)) ELSE b)
       [] op = "IfNegativeThenNegOrUndefIfZero" -> \E s \in NegTest(t, a) :
            (IsZ(x) /\ (IsZero(Mag(t, r)) \/ Same(t, r, b))) \/ Same(t, r, IF s THEN WithSign(1 - b[Size(t)] \div 128, Mag(t, b)) ELSE b)
       [] op = "MulRound" -> LET q == MulXF(x, y) IN Is(t, r, RoundV("near", q)) \/ Is(t, r, RoundV("near", Rnd(t, q)))
       [] op = "IsEitherNaN" -> IsB(t, r, u)
       [] op = "Eq" -> IsB(t, r, ~u /\ CmpF(x, y) = 0)
       [] op = "Ne" -> IsB(t, r, u \/ CmpF(x, y) # 0)
       [] op = "Lt" -> IsB(t, r, ~u /\ CmpF(x, y) < 0)
       [] op = "Le" -> IsB(t, r, ~u /\ CmpF(x, y) <= 0)
       [] op = "Gt" -> IsB(t, r, ~u /\ CmpF(x, y) > 0)
       [] op = "Ge" -> IsB(t, r, ~u /\ CmpF(x, y) >= 0)
       [] op = "MulByPow2" -> Is(t, r, Scaled(x, ClampI(b)))
       [] op = "MulByFloorPow2" ->
            IF IsNaNV(y) THEN IsNaNV(Dec(t, r))
            ELSE IF IsInfV(y) THEN IsNaNV(x) \/ Is(t, r, MulXF(x, IF y.s = 1 THEN Fin(0, <<0>>, 0) ELSE y))
            ELSE Is(t, r, Scaled(x, FloorI(y)))
       [] OTHER -> FALSE
Lane3(op, t, a, b, c, r, p) ==
  LET x == Dec(t, a)  y == Dec(t, b)  z == Dec(t, c)  neg(v) == IF IsNaNV(v) THEN v ELSE Neg(v)
  IN CASE op = "MulAdd" \/ (op = "MulAddSub" /\ p = 1) \/ (op = "MulSubAdd" /\ p = 0) -> MulAddOK(t, r, x, y, z)
       [] op = "MulSub" \/ (op = "MulAddSub" /\ p = 0) \/ (op = "MulSubAdd" /\ p = 1) -> MulAddOK(t, r, x, y, neg(z))
       [] op = "NegMulAdd" -> MulAddOK(t, r, neg(x), y, z)
       [] op = "NegMulSub" -> MulAddOK(t, r, neg(x), y, neg(z))
       [] op = "Clamp" -> (IsNaNV(x) \/ Unord(y, z)) \/ Same(t, r, FMin(t, FMax(t, a, FMin(t, b, c)), FMax(t, b, c)))
       [] op = "IfNegativeThenElse" -> \E s \in NegTest(t, a) : Same(t, r, IF s THEN b ELSE c)
       [] OTHER -> FALSE
Expect(op, t, p, c) ==
  LET z == Size(t)  k == Len(c) \div z  l(i) == SubSeq(c, (i - 1) * z + 1, i * z)
  IN IF op \in ComplexOps THEN ComplexOK(op, t, c)
     ELSE IF k = 2 THEN Lane1(op, t, l(1), l(2)) ELSE IF k = 3 THEN Lane2(op, t, l(1), l(2), l(3), p) ELSE Lane3(op, t, l(1), l(2), l(3), l(4), p)
=============================================================================
