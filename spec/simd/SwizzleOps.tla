----------------------------- MODULE SwizzleOps -----------------------------
(* P28: lane movement.  Almost every op is a fixed map from output lanes to input
   lanes: Src(op, n, bl, k, i) is the 0-based lane of the concatenated operands that
   output lane i shows, or -1 if that lane must be zero.  n: lanes of an operand,
   bl: lanes of a 128-bit block, k: the immediate or run-time count. *)
EXTENDS LaneTypes

Odd(i) == i % 2 = 1
Flip(i, g) == i - (i % g) + (g - 1 - (i % g))           \* i ^ (g - 1)
Src(op, n, bl, k, i) ==
  LET h == n \div 2  bi == i % bl  bb == i - bi  q == i \div bl  nb == n \div bl  j == i \div 2
      o(x) == IF Odd(i) THEN n + x ELSE x                \* from b in odd lanes
  IN
  CASE op \in {"Copy", "LowerHalf"} -> i
    [] op = "UpperHalf" -> h + i
    [] op = "ZeroExtendVector" -> IF i < n THEN i ELSE -1
    [] op = "Combine" -> IF i < n THEN n + i ELSE i - n
    [] op = "ConcatLowerLower" -> IF i < h THEN n + i ELSE i - h
    [] op = "ConcatUpperUpper" -> IF i < h THEN n + h + i ELSE i
    [] op = "ConcatLowerUpper" -> IF i < h THEN n + h + i ELSE i - h
    [] op = "ConcatUpperLower" -> IF i < h THEN n + i ELSE i
    [] op = "ConcatOdd" -> IF i < h THEN n + 2 * i + 1 ELSE 2 * (i - h) + 1
    [] op = "ConcatEven" -> IF i < h THEN n + 2 * i ELSE 2 * (i - h)
    [] op = "InterleaveWholeLower" -> o(j)
    [] op = "InterleaveWholeUpper" -> o(h + j)
    [] op = "Broadcast" -> bb + k
    [] op = "InterleaveLower" -> o(bb + bi \div 2)
    [] op = "InterleaveUpper" -> o(bb + bl \div 2 + bi \div 2)
    [] op = "InterleaveEven" -> o(2 * j)
    [] op = "InterleaveOdd" -> o(2 * j + 1)
    [] op \in {"ShiftLeftLanes", "ShiftLeftBytes"} -> IF bi >= k THEN i - k ELSE -1
    [] op \in {"ShiftRightLanes", "ShiftRightBytes"} -> IF bi + k < bl THEN i + k ELSE -1
    [] op \in {"CombineShiftRightLanes", "CombineShiftRightBytes"} -> IF bi + k < bl THEN n + i + k ELSE i + k - bl
    [] op = "OddEven" -> IF Odd(i) THEN i ELSE n + i
    [] op = "DupEven" -> 2 * j
    [] op = "DupOdd" -> 2 * j + 1
    [] op = "Shuffle1032" -> bb + ((bi + 2) % 4)
    [] op = "Shuffle0321" -> bb + ((bi + 1) % 4)
    [] op = "Shuffle2103" -> bb + ((bi + 3) % 4)
    [] op \in {"Shuffle2301", "Shuffle01"} -> Flip(i, 2)
    [] op = "Shuffle0123" -> Flip(i, 4)
    [] op = "Reverse" -> n - 1 - i
    [] op = "ReverseN" -> Flip(i, k)
    [] op = "ReverseBlocks" -> (nb - 1 - q) * bl + bi
    [] op = "SlideUpLanes" -> IF i >= k THEN i - k ELSE -1
    [] op = "SlideDownLanes" -> IF i + k < n THEN i + k ELSE -1
    [] op = "BroadcastLane" -> k
    [] op = "BroadcastBlock" -> k * bl + bi
    [] op = "OddEvenBlocks" -> IF Odd(q) THEN i ELSE n + i
    [] op = "SwapAdjacentBlocks" -> IF Odd(q) THEN i - bl ELSE i + bl
    [] op = "InterleaveEvenBlocks" -> IF Odd(q) THEN n + i - bl ELSE i
    [] op = "InterleaveOddBlocks" -> IF Odd(q) THEN n + i ELSE i + bl
    [] op = "ExtractBlock" -> k * bl + i
    [] op = "InsertBlock" -> IF q = k THEN n + bi ELSE i
    [] op = "ExtractLane" -> k
    [] op = "InsertLane" -> IF i = k THEN n ELSE i
    [] op = "Set" -> 0
    [] op = "Dup128VecFromValues" -> i % n
    [] op = "Zero" -> -1
\* Bytes of the operands before the result
Ops(op, n, bl, w) ==
  CASE op = "Zero" -> 0 [] op = "Set" -> w [] op = "Dup128VecFromValues" -> 16
    [] op = "InsertBlock" -> (n + bl) * w [] op = "InsertLane" -> (n + 1) * w
    [] op \in {"Combine", "ConcatLowerLower", "ConcatUpperUpper", "ConcatLowerUpper", "ConcatUpperLower", "ConcatOdd", "ConcatEven",
               "InterleaveWholeLower", "InterleaveWholeUpper", "InterleaveLower", "InterleaveUpper", "InterleaveEven", "InterleaveOdd",
               "CombineShiftRightLanes", "CombineShiftRightBytes", "OddEven", "OddEvenBlocks", "InterleaveEvenBlocks", "InterleaveOddBlocks"} -> 2 * n * w
    [] OTHER -> n * w
OutLanes(op, n, bl) ==
  CASE op \in {"LowerHalf", "UpperHalf"} -> n \div 2
    [] op \in {"Combine", "ZeroExtendVector"} -> 2 * n
    [] op = "ExtractBlock" -> bl [] op = "ExtractLane" -> 1 [] OTHER -> n
Min2(a, b) == IF a < b THEN a ELSE b
Moved(op, n, bl, w, k, c) ==
  LET p == Ops(op, n, bl, w)
      lane(s) == IF s = -1 THEN Zero(w) ELSE SubSeq(c, s * w + 1, s * w + w)
      m == IF op = "Dup128VecFromValues" THEN 16 \div w ELSE n
  IN /\ Len(c) = p + OutLanes(op, n, bl) * w
     /\ \A i \in 0..(OutLanes(op, n, bl) - 1) : SubSeq(c, p + i * w + 1, p + i * w + w) = lane(Src(op, m, bl, k, i))

Lane(c, at, i, w) == SubSeq(c, at + i * w + 1, at + i * w + w)   \* 0-based lane i of the vector at byte offset at
ByteOps == {"ShiftLeftBytes", "ShiftRightBytes", "CombineShiftRightBytes"}
Expect(op, t, n, k, c) ==
  LET w == Size(t)  vb == n * w  bl == Min2(n, 16 \div w) IN
  CASE op = "crash" -> FALSE
    [] op \in ByteOps -> Moved(op, vb, Min2(vb, 16), 1, k, c)
    [] op = "BitCast" -> SubSeq(c, 1, Len(c) \div 2) = SubSeq(c, Len(c) \div 2 + 1, Len(c))
    \* k: bytes of the operand; the result keeps the common prefix
    [] op = "ResizeBitCast" -> LET m == Min2(k, Len(c) - k) IN SubSeq(c, 1, m) = SubSeq(c, k + 1, k + m)
    [] op = "ZeroExtendResizeBitCast" -> LET r == SubSeq(c, k + 1, Len(c)) IN \A i \in DOMAIN r : r[i] = IF i <= k THEN c[i] ELSE 0
    [] op = "Zip" -> /\ Len(c) = 4 * w /\ SubSeq(c, 2 * w + 1, 4 * w) = SubSeq(c, 1, 2 * w)     \* single lane
    \* indices: one byte per lane, 0..2n-1 for two tables
    [] op \in {"TableLookupLanes", "TwoTablesLookupLanes"} ->
         LET tb == IF op = "TableLookupLanes" THEN 1 ELSE 2 IN
         \A i \in 0..(n - 1) : Lane(c, n + tb * vb, i, w) = Lane(c, n, c[i + 1], w)
    \* k: bytes of the table; the index and the result have equally many bytes
    [] op \in {"TableLookupBytes", "TableLookupBytesOr0"} ->
         LET m == (Len(c) - k) \div 2 IN
         \A i \in 0..(m - 1) : LET x == c[k + i + 1]  tbl == i - (i % 16) IN
              c[k + m + i + 1] = IF x >= 128 THEN 0 ELSE c[tbl + x + 1]
    [] op = "Per4LaneBlockShuffle" ->
         \A i \in 0..(n - 1) : LET x == (k \div (4 ^ (i % 4))) % 4 IN
            (n < 4 /\ x >= n) \/ Lane(c, vb, i, w) = Lane(c, 0, i - (i % 4) + x, w)
    [] op = "SignBit" -> \A i \in 0..(n - 1) : Lane(c, 0, i, w) = MinOf(TRUE, w)
    [] op = "Iota" -> \A i \in 0..(n - 1) : Lane(c, w, i, w) = AddW(SubSeq(c, 1, w), W(i, w))
    \* first value and the lanes, which are small integers, as 2-byte integers
    [] op = "IotaFloat" -> \A i \in 0..(n - 1) : Lane(c, 2, i, 2) = W(c[1] + 256 * c[2] + i, 2)
    \* mask (one byte per lane), the fallback vector, the value, the result
    [] op = "MaskedSetOr" -> \A i \in 0..(n - 1) : Lane(c, n + vb + w, i, w) = IF c[i + 1] = 1 THEN Lane(c, n + vb, 0, w) ELSE Lane(c, n, i, w)
    [] op = "Counts" -> LET b == IF vb >= 16 THEN vb \div 16 ELSE 1 IN c = <<n, n, b, b, vb>>  \* Lanes, MaxLanes, Blocks, MaxBlocks, MaxBytes
    [] OTHER -> Moved(op, n, bl, w, k, c)
=============================================================================
