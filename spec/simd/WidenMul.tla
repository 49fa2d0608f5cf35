------------------------------ MODULE WidenMul ------------------------------
(* Widening multiply-accumulate of the SIMD machine.  Integer lanes are exact
   signed words of WL bytes; results wrap or saturate to the lane type.
   t, tb: lane types of the operands; to: lane type of the accumulator;
   n: lanes of an operand; k: number of accumulation steps.                    *)
EXTENDS FloatOps
WL == 12
Ex(t, w) == Ext(Signed(t), w, Size(t) + 1)
Prod(t, a, tb, b) == Ext(TRUE, MulX(TRUE, Ex(t, a), Ex(tb, b)), WL)
Wd(t, w) == Ext(Signed(t), w, WL)
\* exact sum of the products of the lanes j in sel (sets of positions, increasing order irrelevant)
RECURSIVE SumP(_, _, _, _, _, _, _)
SumP(t, a, tb, b, lo, hi, acc) == IF lo > hi \/ lo > Len(a) THEN acc ELSE SumP(t, a, tb, b, lo + 1, hi, AddW(acc, Prod(t, a[lo], tb, b[lo])))
RECURSIVE SumPF(_, _, _, _, _, _)
SumPF(t, a, b, lo, hi, acc) == IF lo > hi \/ lo > Len(a) THEN acc ELSE SumPF(t, a, b, lo + 1, hi, AddX(acc, MulXF(Dec(t, a[lo]), Dec(t, b[lo]))))
FZero == Fin(0, <<0>>, 0)
RECURSIVE SumAll(_, _, _, _)
SumAll(t, v, k, acc) == IF k > Len(v) THEN acc ELSE SumAll(t, v, k + 1, AddW(acc, Wd(t, v[k])))
RECURSIVE SumAllF(_, _, _, _)
SumAllF(t, v, k, acc) == IF k > Len(v) THEN acc ELSE SumAllF(t, v, k + 1, AddX(acc, Dec(t, v[k])))
IsMin16(w) == w = <<0, 128>>

Expect(op, t, tb, to, n, k, c) ==
  LET z == Size(t)  y == Size(to)  g == y \div z          \* g operand lanes per accumulator lane
      P(off, len) == SubSeq(c, off + 1, off + len)
      V(off, cnt, sz) == Chunk(P(off, cnt * sz), sz)
      m == IF n < g THEN 1 ELSE n \div g                   \* accumulator lanes
      a == V(0, n, z)  b == V(n * z, n, z)
      o == 2 * n * z                                        \* end of the operands
      r == V(o, m, y)                                       \* result without accumulator
      s == V(o, m, y)  rs == V(o + m * y, m, y)             \* accumulator, result
      sgn == Signed(to)
      grp(j) == SumP(t, a, tb, b, g * (j - 1) + 1, g * j, Zero(WL))
      \* sequences of steps: accumulator first, then k pairs of operand vectors
      sa(i) == V(m * y + 2 * (i - 1) * n * z, n, z)  sb(i) == V(m * y + (2 * (i - 1) + 1) * n * z, n, z)
      e == m * y + 2 * k * n * z
      init == V(0, m, y)  q0 == V(e, m, y)  q1 == V(e + m * y, m, y)
      fl == IsFloatT(to)
  IN CASE op = "WidenMulPairwiseAdd" ->
            \A j \in 1..m : IF fl THEN IsNum(to, r[j], SumPF(t, a, b, 2 * j - 1, 2 * j, FZero)) ELSE r[j] = Trunc(grp(j), y)
       [] op = "SatWidenMulPairwiseAdd" -> \A j \in 1..m : r[j] = Sat(sgn, grp(j), y)
       [] op = "SatWidenMulPairwiseAccumulate" -> \A j \in 1..m : rs[j] = Sat(sgn, AddW(grp(j), Wd(to, s[j])), y)
       [] op = "SumOfMulQuadAccumulate" -> \A j \in 1..m : rs[j] = Trunc(AddW(grp(j), Wd(to, s[j])), y)
       [] op = "RearrangeToOddPlusEven" ->
            LET RECURSIVE St(_, _, _)
                St(i, j, acc) == IF i > k THEN acc ELSE St(i + 1, j, SumP(t, sa(i), tb, sb(i), g * (j - 1) + 1, g * j, acc))
                RECURSIVE StF(_, _, _)
                StF(i, j, acc) == IF i > k THEN acc ELSE StF(i + 1, j, SumPF(t, sa(i), sb(i), g * (j - 1) + 1, g * j, acc))
            IN \A j \in 1..m : IF fl THEN IsNum(to, q0[j], StF(1, j, FZero)) ELSE q0[j] = Trunc(St(1, j, Zero(WL)), y)
       [] op = "ReorderWidenMulAccumulate" ->      \* only the total is specified
            LET RECURSIVE Tot(_, _)
                Tot(i, acc) == IF i > k THEN acc ELSE Tot(i + 1, SumP(t, sa(i), tb, sb(i), 1, n, acc))
                RECURSIVE TotF(_, _)
                TotF(i, acc) == IF i > k THEN acc ELSE TotF(i + 1, SumPF(t, sa(i), sb(i), 1, n, acc))
            IN IF fl THEN CmpF(TotF(1, SumAllF(to, init, 1, FZero)), SumAllF(to, q0 \o q1, 1, FZero)) = 0
               ELSE Trunc(Tot(1, SumAll(to, init, 1, Zero(WL))), y) = Trunc(SumAll(to, q0 \o q1, 1, Zero(WL)), y)
       [] op = "WidenMulAccumulate" ->
            LET acc == V(o, n, y)  res == V(o + n * y, n, y)
            IN \A j \in 1..n : res[j] = Trunc(AddW(Prod(t, a[j], tb, b[j]), Wd(to, acc[j])), y)
       [] op = "MulEvenOdd" ->
            LET ev == V(o, m, y)  od == V(o + m * y, m, y)
            IN \A j \in 1..m : ev[j] = Trunc(Prod(t, a[2 * j - 1], tb, b[2 * j - 1]), y) /\ od[j] = Trunc(Prod(t, a[2 * j], tb, b[2 * j]), y)
       [] op = "MulEvenOddAdd" ->
            LET ev == rs  od == V(o + 2 * m * y, m, y)
            IN \A j \in 1..m : /\ IsMulAdd(to, ev[j], Dec(t, a[2 * j - 1]), Dec(t, b[2 * j - 1]), Dec(to, s[j]))
                               /\ IsMulAdd(to, od[j], Dec(t, a[2 * j]), Dec(t, b[2 * j]), Dec(to, s[j]))
       [] op = "SatWidenMulAccumFixedPoint" ->
            LET acc == V(o, n, y)  res == V(o + n * y, n, y)
            IN \A j \in 1..n : LET p == Prod(t, a[j], tb, b[j])  d == AddW(p, p)
                 IN \/ res[j] = Sat(sgn, AddW(d, Wd(to, acc[j])), y)
                    \/ IsMin16(a[j]) /\ IsMin16(b[j]) /\ res[j] = Sat(sgn, AddW(Wd(to, Sat(sgn, d, y)), Wd(to, acc[j])), y)
       [] OTHER -> FALSE
=============================================================================
