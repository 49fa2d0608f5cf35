------------------------------ MODULE MaskOps ------------------------------
(* P25: masks as boolean vectors, comparisons, and selection by a mask.  A mask
   operand or result is a sequence of n bytes 0/1 (2 would be a malformed mask);
   integer operands and results are 8 bytes. *)
EXTENDS LaneTypes

B8(x) == IF x >= 0 THEN W(x, 8) ELSE Ones(8)      \* x >= -1 as size_t / intptr_t
TrueIdx(m) == {i \in DOMAIN m : m[i] = 1}
MinS(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
MaxS(Q) == CHOOSE x \in Q : \A y \in Q : x >= y
First(m) == IF TrueIdx(m) = {} THEN 0 ELSE MinS(TrueIdx(m))   \* 1-based, 0 if none
Last(m) == IF TrueIdx(m) = {} THEN 0 ELSE MaxS(TrueIdx(m))
BoolMask(n, p(_)) == [i \in 1..n |-> IF p(i) THEN 1 ELSE 0]
\* Bit i-1 of byte sequence a
BitAt(a, i) == (a[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2
\* The bit array of a mask, nb bytes
MaskBytes(m, nb) == [j \in 1..nb |-> LET b(k) == IF 8 * (j - 1) + k <= Len(m) THEN m[8 * (j - 1) + k] * (2 ^ (k - 1)) ELSE 0
                                     IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)]
Count(m) == Cardinality(TrueIdx(m))
\* k as a natural clipped to 1000 (8 bytes)
Clip(b) == IF \E j \in 3..8 : b[j] # 0 THEN 1000 ELSE LET v == b[1] + 256 * b[2] IN IF v > 1000 THEN 1000 ELSE v
\* Lane i of the byte sequence of a vector
Lane(v, i, w) == SubSeq(v, (i - 1) * w + 1, i * w)
Select(m, y, no, w) == Concat([i \in DOMAIN m |-> IF m[i] = 1 THEN Lane(y, i, w) ELSE Lane(no, i, w)], 1, << >>)

\* ------------------------------------------------------------- comparisons
Mant(t) == IF t = "f32" THEN 23 ELSE IF t = "f64" THEN 52 ELSE IF t = "f16" THEN 10 ELSE 7
MagBits(a) == [a EXCEPT ![Len(a)] = @ % 128]
InfOf(t) == LET n == Size(t) IN ShlW([i \in 1..n |-> IF i = n THEN 127 ELSE 255], 0)
InfMag(t) == CASE t = "f32" -> <<0, 0, 128, 127>> [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 240, 127>> [] t = "f16" -> <<0, 124>> [] t = "bf16" -> <<128, 127>>
NaNBits(t, a) == CmpU(MagBits(a), InfMag(t)) = 1
\* total order of non-NaN floats, -0 = +0
FKey(a) == IF IsZero(MagBits(a)) THEN MagBits(a) ELSE a
FCmp(a, b) == LET x == FKey(a) y == FKey(b) IN
  IF IsNeg(x) # IsNeg(y) THEN (IF IsNeg(x) THEN -1 ELSE 1)
  ELSE IF IsNeg(x) THEN CmpU(MagBits(y), MagBits(x)) ELSE CmpU(x, y)
Rel(op, t, a, b) ==
  IF IsFloatT(t) /\ (NaNBits(t, a) \/ NaNBits(t, b)) THEN op = "Ne"
  ELSE LET c == IF IsFloatT(t) THEN FCmp(a, b) ELSE Cmp(Signed(t), a, b) IN
       CASE op = "Eq" -> c = 0 [] op = "Ne" -> c # 0 [] op = "Lt" -> c = -1 [] op = "Le" -> c # 1 [] op = "Gt" -> c = 1 [] op = "Ge" -> c # -1

B(x) == IF x THEN 1 ELSE 0

Expect(op, t, n, c) ==
  LET w == Size(t)
      M == SubSeq(c, 1, n)  M2 == SubSeq(c, n + 1, 2 * n)
      R == SubSeq(c, n + 1, Len(c))  R2 == SubSeq(c, 2 * n + 1, Len(c))   \* result after one/two mask operands
      K8 == SubSeq(c, 1, 8)  RK == SubSeq(c, 9, Len(c))                     \* an integer operand, then a mask
      KM == SubSeq(c, n + 1, n + 8)  RM == SubSeq(c, n + 9, Len(c))         \* mask, integer, result
      CA == SubSeq(c, 1, w)  CB == SubSeq(c, w + 1, 2 * w)
      A2 == SubSeq(c, 1, 16)  B2 == SubSeq(c, 17, 32)  Both(x) == SubSeq(c, 33, 34) = <<B(x), B(x)>>
      Hi(a) == SubSeq(a, 9, 16)
  IN
  CASE op = "FirstN" -> RK = BoolMask(n, LAMBDA i : i <= Clip(K8))
    [] op = "MaskFalse" -> c = BoolMask(n, LAMBDA i : FALSE)
    [] op = "Dup128MaskFromMaskBits" -> RK = BoolMask(n, LAMBDA i : BitAt(K8, ((i - 1) % (16 \div w)) + 1) = 1)
    [] op = "LoadMaskBits" -> RK = BoolMask(n, LAMBDA i : BitAt(K8, i) = 1)
    [] op = "LoadMaskBitsCount" -> RK = B8(Count(BoolMask(n, LAMBDA i : BitAt(K8, i) = 1)))
    [] op = "RoundTrip" -> R = M
    [] op = "ConcatMasks" -> R2 = M \o M2
    [] op = "BitsFromMask" -> R = MaskBytes(M, 8)
    [] op = "StoreMaskBits" ->      \* 8 guard bytes, 8 bytes that may be written, 8 guard bytes
         LET nb == (n + 7) \div 8  out == SubSeq(RM, 1, 24) IN
         /\ KM = B8(nb)
         /\ SubSeq(out, 9, 8 + nb) = MaskBytes(M, nb)
         /\ \A i \in (1..8) \cup (17..24) : out[i] = 165
    [] op = "CountTrue" -> R = B8(Count(M))
    [] op = "CountFalse" -> R = B8(n - Count(M))
    [] op = "FindFirstTrue" -> R = B8(First(M) - 1)
    [] op = "FindLastTrue" -> R = B8(Last(M) - 1)
    [] op = "AllTrue" -> R = B8(B(Count(M) = n))
    [] op = "AllFalse" -> R = B8(B(Count(M) = 0))
    [] op = "Not" -> R = BoolMask(n, LAMBDA i : M[i] = 0)
    [] op = "SetOnlyFirst" -> R = BoolMask(n, LAMBDA i : i = First(M))
    [] op = "SetBeforeFirst" -> R = BoolMask(n, LAMBDA i : First(M) = 0 \/ i < First(M))
    [] op = "SetAtOrBeforeFirst" -> R = BoolMask(n, LAMBDA i : First(M) = 0 \/ i <= First(M))
    [] op = "SetAtOrAfterFirst" -> R = BoolMask(n, LAMBDA i : First(M) # 0 /\ i >= First(M))
    [] op = "SlideMask1Up" -> R = BoolMask(n, LAMBDA i : i > 1 /\ M[i - 1] = 1)
    [] op = "SlideMask1Down" -> R = BoolMask(n, LAMBDA i : i < n /\ M[i + 1] = 1)
    [] op = "SlideMaskUpLanes" -> RM = BoolMask(n, LAMBDA i : i - Clip(KM) >= 1 /\ M[i - Clip(KM)] = 1)
    [] op = "SlideMaskDownLanes" -> RM = BoolMask(n, LAMBDA i : i + Clip(KM) <= n /\ M[i + Clip(KM)] = 1)
    [] op = "And" -> R2 = BoolMask(n, LAMBDA i : M[i] = 1 /\ M2[i] = 1)
    [] op = "AndNot" -> R2 = BoolMask(n, LAMBDA i : M[i] = 0 /\ M2[i] = 1)
    [] op = "Or" -> R2 = BoolMask(n, LAMBDA i : M[i] = 1 \/ M2[i] = 1)
    [] op = "Xor" -> R2 = BoolMask(n, LAMBDA i : M[i] # M2[i])
    [] op = "ExclusiveNeither" -> R2 = BoolMask(n, LAMBDA i : M[i] = 0 /\ M2[i] = 0)
    [] op = "LowerHalfOfMask" -> R = SubSeq(M, 1, n \div 2)
    [] op = "UpperHalfOfMask" -> R = SubSeq(M, n \div 2 + 1, n)
    [] op \in {"IfThenElse", "IfThenElseZero", "IfThenZeroElse"} ->
         LET y == SubSeq(c, n + 1, n + n * w)  no == SubSeq(c, n + n * w + 1, n + 2 * n * w)  r == SubSeq(c, n + 2 * n * w + 1, Len(c))
             z == Zero(n * w)
         IN r = Select(M, IF op = "IfThenZeroElse" THEN z ELSE y, IF op = "IfThenElseZero" THEN z ELSE no, w)
    [] op \in {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"} -> c[2 * w + 1] = B(Rel(op, t, CA, CB))
    [] op = "IsNegative" -> c[w + 1] = B(IsNeg(CA))
    [] op = "TestBit" -> c[2 * w + 1] = B(~IsZero(AndW(CA, CB)))
    [] op = "Lt128" -> Both(CmpU(A2, B2) = -1)
    [] op = "Lt128Upper" -> Both(CmpU(Hi(A2), Hi(B2)) = -1)
    [] op = "Eq128" -> Both(A2 = B2)
    [] op = "Ne128" -> Both(A2 # B2)
    [] op = "Eq128Upper" -> Both(Hi(A2) = Hi(B2))
    [] op = "Ne128Upper" -> Both(Hi(A2) # Hi(B2))
    [] OTHER -> FALSE
=============================================================================
