------------------------------- MODULE Words -------------------------------
(* Machine words as little-endian byte sequences and their arithmetic.  All
   integer semantics of the SIMD machine are defined through exact arithmetic on
   sufficiently wide words, followed by wrapping, saturation or rounding. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* (SubSeq makes TLC evaluate a function once, instead of anew for each application.)
LOCAL INSTANCE Bitwise

Bytes == 0..255
Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
\* Small integer x as n bytes (x may be negative).
RECURSIVE WR(_, _, _, _)
WR(x, n, i, acc) == IF i = n THEN acc ELSE WR(x \div 256, n, i + 1, Append(acc, x % 256))
W(x, n) == WR(x, n, 0, << >>)
RECURSIVE UR(_, _, _)
UR(a, i, acc) == IF i = 0 THEN acc ELSE UR(a, i - 1, acc * 256 + a[i])
U(a) == UR(a, Len(a), 0)                          \* unsigned value; at most 3 bytes (or < 2^31)
IsNeg(a) == a[Len(a)] >= 128
S(a) == U(a) - (IF IsNeg(a) THEN 2 ^ (8 * Len(a)) ELSE 0)   \* at most 3 bytes

IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Trunc(a, n) == SubSeq(a, 1, n)
ZExt(a, n) == a \o Zero(n - Len(a))
SExt(a, n) == a \o (IF IsNeg(a) THEN Ones(n - Len(a)) ELSE Zero(n - Len(a)))
Ext(sgn, a, n) == IF sgn THEN SExt(a, n) ELSE ZExt(a, n)

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + c IN AddR(a, b, i + 1, s \div 256, Append(acc, s % 256))
AddW(a, b) == AddR(a, b, 1, 0, << >>)
NotW(a) == SubSeq([i \in DOMAIN a |-> 255 - a[i]], 1, Len(a))
SubW(a, b) == AddR(a, NotW(b), 1, 1, << >>)
NegW(a) == SubW(Zero(Len(a)), a)

\* Comparison: -1, 0, 1
RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i - 1)
CmpU(a, b) == CmpR(a, b, Len(a))
CmpS(a, b) == IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1) ELSE CmpU(a, b)
Cmp(sgn, a, b) == IF sgn THEN CmpS(a, b) ELSE CmpU(a, b)
Lt(sgn, a, b) == Cmp(sgn, a, b) = -1

\* Exact unsigned product, Len(a) + Len(b) bytes.
RECURSIVE ColR(_, _, _, _, _)
ColR(a, b, k, i, acc) ==   \* sum of a[i] * b[k - i + 1] over valid i
  IF i > Len(a) \/ i > k THEN acc
  ELSE ColR(a, b, k, i + 1, IF k - i + 1 <= Len(b) THEN acc + a[i] * b[k - i + 1] ELSE acc)
RECURSIVE MulR(_, _, _, _, _)
MulR(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) THEN acc
  ELSE LET s == ColR(a, b, k, 1, 0) + c IN MulR(a, b, k + 1, s \div 256, Append(acc, s % 256))
MulU(a, b) == MulR(a, b, 1, 0, << >>)
\* Exact product of two signed or unsigned words of n bytes: 2n bytes.
AbsW(a) == IF IsNeg(a) THEN NegW(a) ELSE a     \* as an unsigned word
MulX(sgn, a, b) == IF ~sgn THEN MulU(a, b)
                   ELSE LET p == MulU(AbsW(a), AbsW(b)) IN IF IsNeg(a) # IsNeg(b) THEN NegW(p) ELSE p

\* Smallest/largest value of an n-byte type.
MinOf(sgn, n) == IF sgn THEN [i \in 1..n |-> IF i = n THEN 128 ELSE 0] ELSE Zero(n)
MaxOf(sgn, n) == IF sgn THEN [i \in 1..n |-> IF i = n THEN 127 ELSE 255] ELSE Ones(n)
\* Clamp the wide two's complement value x (Len(x) > n) to an n-byte type.
Sat(sgn, x, n) ==
  IF CmpS(x, Ext(sgn, MinOf(sgn, n), Len(x))) = -1 THEN MinOf(sgn, n)
  ELSE IF CmpS(x, Ext(sgn, MaxOf(sgn, n), Len(x))) = 1 THEN MaxOf(sgn, n)
  ELSE Trunc(x, n)

\* Bits
Bit(a, k) == (a[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
NumBits(a) == 8 * Len(a)
FromBits(n, f(_)) == SubSeq([i \in 1..n |-> f(8*i-8) + 2*f(8*i-7) + 4*f(8*i-6) + 8*f(8*i-5) + 16*f(8*i-4) + 32*f(8*i-3) + 64*f(8*i-2) + 128*f(8*i-1)], 1, n)
AndW(a, b) == SubSeq([i \in DOMAIN a |-> a[i] & b[i]], 1, Len(a))
OrW(a, b)  == SubSeq([i \in DOMAIN a |-> a[i] | b[i]], 1, Len(a))
XorW(a, b) == SubSeq([i \in DOMAIN a |-> a[i] ^^ b[i]], 1, Len(a))
\* Shifts by 0 <= s < NumBits(a), byte-wise with carry between neighbours.
ShlW(a, s) ==
  LET q == s \div 8  r == s % 8  p == 2 ^ r
      g(i) == IF i - q >= 1 /\ i - q <= Len(a) THEN a[i - q] ELSE 0
  IN SubSeq([i \in DOMAIN a |-> (g(i) * p + (g(i - 1) * p) \div 256) % 256], 1, Len(a))
ShrFill(a, s, fill) ==
  LET q == s \div 8  r == s % 8  p == 2 ^ r
      g(i) == IF i + q <= Len(a) THEN a[i + q] ELSE fill
  IN SubSeq([i \in DOMAIN a |-> ((g(i) + 256 * g(i + 1)) \div p) % 256], 1, Len(a))
ShrW(a, s) == ShrFill(a, s, 0)
SarW(a, s) == ShrFill(a, s, IF IsNeg(a) THEN 255 ELSE 0)
Shr(sgn, a, s) == IF sgn THEN SarW(a, s) ELSE ShrW(a, s)
RECURSIVE PopB(_)
PopB(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopB(x \div 2)
RECURSIVE PopR(_, _, _)
PopR(a, i, acc) == IF i > Len(a) THEN acc ELSE PopR(a, i + 1, acc + PopB(a[i]))
Pop(a) == PopR(a, 1, 0)
RECURSIVE HighR(_, _)
HighR(a, k) == IF k < 0 THEN -1 ELSE IF Bit(a, k) = 1 THEN k ELSE HighR(a, k - 1)
HighBit(a) == HighR(a, NumBits(a) - 1)            \* -1 if zero
RECURSIVE LowR(_, _)
LowR(a, k) == IF k = NumBits(a) THEN k ELSE IF Bit(a, k) = 1 THEN k ELSE LowR(a, k + 1)
LowBit(a) == LowR(a, 0)                           \* NumBits(a) if zero
RevSeq(a) == SubSeq([i \in DOMAIN a |-> a[Len(a) + 1 - i]], 1, Len(a))
RECURSIVE Concat(_, _, _)
Concat(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Concat(ss, i + 1, acc \o ss[i])
Chunk(a, n) == SubSeq([i \in 1..(Len(a) \div n) |-> SubSeq(a, (i - 1) * n + 1, i * n)], 1, Len(a) \div n)
=============================================================================
