------------------------------ MODULE BigFloat ------------------------------
(* Real numbers to about 110 bits: <<s, e, n>> is s * (sum of n[i] * B^(e + i - 1)), where s is
   1 or -1 and n a sequence of limbs (least significant first, the last one not zero;
   empty for zero).  Operations truncate to K limbs, i.e. their relative
   error is below 2^-115 unless stated otherwise.                                *)
EXTENDS FloatOps
B == 8192
K == 10
ZeroB == <<1, 0, << >>>>
OneB == <<1, 0, <<1>>>>
IsZeroB(x) == x[3] = << >>
NegB(x) == <<-x[1], x[2], x[3]>>
AbsB(x) == <<1, x[2], x[3]>>
\* Strips zero limbs at both ends and limbs beyond k.
RECURSIVE TopLimb(_, _)
TopLimb(n, i) == IF i = 0 THEN 0 ELSE IF n[i] # 0 THEN i ELSE TopLimb(n, i - 1)
RECURSIVE LowLimb(_, _, _)
LowLimb(n, i, top) == IF i = top \/ n[i] # 0 THEN i ELSE LowLimb(n, i + 1, top)
NormK(s, e, n, k) ==
  LET top == TopLimb(n, Len(n)) IN
  IF top = 0 THEN ZeroB
  ELSE LET lo == LowLimb(n, IF top > k THEN top - k + 1 ELSE 1, top) IN <<s, e + lo - 1, SubSeq(n, lo, top)>>
Norm(s, e, n) == NormK(s, e, n, K)
RoundB(x) == Norm(x[1], x[2], x[3])
\* Number from limbs of any size below 2^30.
RECURSIVE Carry(_, _, _, _)
Carry(cols, i, c, out) ==
  IF i > Len(cols) THEN (IF c = 0 THEN out ELSE Carry(cols, i, c \div B, Append(out, c % B)))
  ELSE LET v == cols[i] + c IN Carry(cols, i + 1, v \div B, Append(out, v % B))
RECURSIVE Col(_, _, _, _, _, _)
Col(a, b, k, i, hi, acc) == IF i > hi THEN acc ELSE Col(a, b, k, i + 1, hi, acc + a[i] * b[k - i])
MulK(x, y, kk) ==
  IF IsZeroB(x) \/ IsZeroB(y) THEN ZeroB
  ELSE LET a == x[3]  b == y[3]  la == Len(a)  lb == Len(b)
           from == MaxI(2, (la + lb) - kk - 1)          \* columns i + j below are negligible
           cols == SubSeq([k \in 1..((la + lb) - from + 1) |->
                       LET q == k + from - 1 IN Col(a, b, q, MaxI(1, q - lb), MinI(la, q - 1), 0)], 1, (la + lb) - from + 1)
       IN NormK(x[1] * y[1], x[2] + y[2] + from - 2, Carry(cols, 1, 0, << >>), kk)
MulB(x, y) == MulK(x, y, K)
MulSmall(x, k) == IF k = 0 \/ IsZeroB(x) THEN ZeroB
  ELSE LET a == x[3]  m == IF k < 0 THEN -k ELSE k IN
       Norm(IF k < 0 THEN -x[1] ELSE x[1], x[2], Carry(SubSeq([i \in 1..Len(a) |-> a[i] * m], 1, Len(a)), 1, 0, << >>))   \* |k| < 2^17
Top(x) == x[2] + Len(x[3])
At(x, p) == IF p < x[2] \/ p >= Top(x) THEN 0 ELSE x[3][p - x[2] + 1]
RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(x, y, p, lo) == IF p < lo THEN 0 ELSE LET a == At(x, p)  b == At(y, p) IN IF a # b THEN (IF a < b THEN -1 ELSE 1) ELSE CmpFrom(x, y, p - 1, lo)
CmpAbs(x, y) == IF IsZeroB(x) \/ IsZeroB(y) THEN (IF IsZeroB(x) THEN (IF IsZeroB(y) THEN 0 ELSE -1) ELSE 1)
  ELSE IF Top(x) # Top(y) THEN (IF Top(x) < Top(y) THEN -1 ELSE 1) ELSE CmpFrom(x, y, Top(x) - 1, MinI(x[2], y[2]))
CmpB(x, y) ==
  IF IsZeroB(x) THEN (IF IsZeroB(y) THEN 0 ELSE -y[1])
  ELSE IF IsZeroB(y) THEN x[1]
  ELSE IF x[1] # y[1] THEN x[1] ELSE x[1] * CmpAbs(x, y)
RECURSIVE Borrow(_, _, _, _)
Borrow(cols, i, c, out) == IF i > Len(cols) THEN out
  ELSE LET v == cols[i] + c IN IF v < 0 THEN Borrow(cols, i + 1, -1, Append(out, v + B)) ELSE Borrow(cols, i + 1, 0, Append(out, v))
\* Sum to k limbs (relative to the larger operand before normalisation).
AddK(x, y, k) ==
  IF IsZeroB(x) THEN y ELSE IF IsZeroB(y) THEN x
  ELSE LET c == CmpAbs(x, y)
           g == IF c >= 0 THEN x ELSE y
           h == IF c >= 0 THEN y ELSE x
           top == Top(g)
           lo == MaxI(MinI(g[2], h[2]), top - k - 1)
           sg == IF x[1] = y[1] THEN 1 ELSE -1
           cols == SubSeq([i \in 1..(top - lo) |-> At(g, lo + i - 1) + sg * At(h, lo + i - 1)], 1, top - lo)
       IN IF Top(h) < lo THEN g
          ELSE IF sg = 1 THEN NormK(g[1], lo, Carry(cols, 1, 0, << >>), k + 1)
          ELSE IF c = 0 THEN ZeroB ELSE NormK(g[1], lo, Borrow(cols, 1, 0, << >>), k + 1)
AddB(x, y) == AddK(x, y, K)
SubB(x, y) == AddK(x, NegB(y), K)
\* Exact difference of numbers with few limbs of similar size.
SubExact(x, y) == AddK(x, NegB(y), 60)
\* x / k for 0 < k < 2^17
RECURSIVE DivL(_, _, _, _, _)
DivL(n, i, k, r, out) == IF i = 0 THEN out ELSE LET v == r * B + n[i] IN DivL(n, i - 1, k, v % k, <<v \div k>> \o out)
DivSmallK(x, k, kk) == IF IsZeroB(x) THEN x
  ELSE LET pad == MaxI(0, kk + 2 - Len(x[3]))
           n == [i \in 1..pad |-> 0] \o x[3]
       IN NormK(x[1], x[2] - pad, DivL(n, Len(n), k, 0, << >>), kk)
DivSmall(x, k) == DivSmallK(x, k, K)
\* x * 2^n
Mod(a, b) == a % b
ScaleB(x, n) == LET q == n \div 13 IN LET y == MulSmall(x, 2 ^ (n - 13 * q)) IN IF IsZeroB(y) THEN y ELSE <<y[1], y[2] + q, y[3]>>
\* An integer below 2^26 in magnitude.
IntB(k) == LET a == IF k < 0 THEN -k ELSE k IN NormK(IF k < 0 THEN -1 ELSE 1, 0, <<a % B, (a \div B) % B, a \div (B * B)>>, 3)
\* Nearest integer (|x| < 2^26)
RoundInt(x) == LET y == AddB(AbsB(x), <<1, -1, <<B \div 2>>>>) IN x[1] * (At(y, 0) + B * At(y, 1))
\* m * 2^e for a word of bytes m
BytesAt(w, i) == IF i <= Len(w) THEN w[i] ELSE 0
FromWord(s, m, e) ==
  LET q == e \div 13  w == Shl(m, e - 13 * q)
      limb(i) == LET bit == 13 * (i - 1)  p == (bit \div 8) + 1
                 IN ((BytesAt(w, p) + 256 * BytesAt(w, p + 1) + 65536 * BytesAt(w, p + 2)) \div (2 ^ (bit % 8))) % B
      len == (8 * Len(w)) \div 13 + 1
  IN NormK(IF s = 0 THEN 1 ELSE -1, q, SubSeq([i \in 1..len |-> limb(i)], 1, len), 12)
\* v >= lo and v <= hi up to a relative error of 2^-91
Fuzz(v) == IF IsZeroB(v) THEN v ELSE <<1, v[2] - 7, v[3]>>
GeB(v, lo) == CmpB(AddB(v, Fuzz(v)), lo) >= 0
LeB(v, hi) == CmpB(SubB(v, Fuzz(v)), hi) <= 0
=============================================================================
