----------------------------- MODULE ReduceOps -----------------------------
(* Reductions of the SIMD machine: over all lanes of a vector, over groups of
   neighbouring lanes, over pairs; with and without mask.  c holds the lanes of
   the operands (n lanes of type t each), then the result.  Integer sums wrap;
   the float operands are chosen so that every order of summation is exact.    *)
EXTENDS FloatOps
Num(t, w) == IF IsFloatT(t) THEN Dec(t, w) ELSE w      \* value of a lane
\* sum of the lanes of v selected by sel, a set of indices, in the lane type
RECURSIVE SumW(_, _, _, _)
SumW(v, sel, k, acc) == IF k > Len(v) THEN acc ELSE SumW(v, sel, k + 1, IF k \in sel THEN AddW(acc, v[k]) ELSE acc)
RECURSIVE SumF(_, _, _, _, _)
SumF(t, v, sel, k, acc) == IF k > Len(v) THEN acc ELSE SumF(t, v, sel, k + 1, IF k \in sel THEN AddX(acc, Dec(t, v[k])) ELSE acc)
IsSum(t, v, sel, r) == IF IsFloatT(t) THEN IsNum(t, r, SumF(t, v, sel, 1, Fin(0, <<0>>, 0))) ELSE r = SumW(v, sel, 1, Zero(Size(t)))
CmpL(t, a, b) == IF IsFloatT(t) THEN CmpF(Dec(t, a), Dec(t, b)) ELSE Cmp(Signed(t), a, b)
\* r is one of the selected lanes (a zero of either sign for a zero), and none is beyond it
IsExtreme(t, v, sel, r, dir) ==
  /\ \E k \in sel : r = v[k] \/ (IsFloatT(t) /\ IsZero(Mag(t, r)) /\ IsZero(Mag(t, v[k])))
  /\ \A k \in sel : CmpL(t, v[k], r) # dir
All(v) == DOMAIN v
\* Sum of the g lanes k+1..k+g, in the wide type of y bytes
RECURSIVE GroupR(_, _, _, _, _, _)
GroupR(sgn, v, k, e, y, acc) == IF k > e \/ k > Len(v) THEN acc ELSE GroupR(sgn, v, k + 1, e, y, AddW(acc, Ext(sgn, v[k], y)))
IsGroupSum(t, v, k, g, r) ==
  IF IsFloatT(t) THEN LET w == Wide(t) IN IsNum(w, r, SumF(t, v, (k + 1)..(k + g), 1, Fin(0, <<0>>, 0)))
  ELSE r = GroupR(Signed(t), v, k + 1, k + g, Len(r), Zero(Len(r)))
AbsI(x) == IF x < 0 THEN -x ELSE x
Val8(t, w) == IF t = "i8" THEN S(w) ELSE U(w)
\* |a[i+j] - b[k+j]| summed over j = 0..m-1 (zero-based lanes)
RECURSIVE SadR(_, _, _, _, _, _, _)
SadR(t, a, b, i, k, m, acc) == IF m = 0 THEN acc ELSE SadR(t, a, b, i, k, m - 1, acc + AbsI(Val8(t, a[i + m]) - Val8(t, b[k + m])))
Sad(t, a, b, i, k, m) == SadR(t, a, b, i, k, m, 0)

Expect(op, t, n, k, c) ==
  LET z == Size(t)
      a == Chunk(SubSeq(c, 1, n * z), z)
      r1 == SubSeq(c, n * z + 1, Len(c))                         \* result of an op with one operand
      l1 == Chunk(r1, z)
      m == SubSeq(c, n * z + 1, n * z + n)                       \* mask of a masked reduction
      sel == {j \in 1..n : m[j] = 1}
      rm == SubSeq(c, n * z + n + 1, Len(c))
      b == Chunk(SubSeq(c, n * z + 1, 2 * n * z), z)
      r2 == SubSeq(c, 2 * n * z + 1, Len(c))
      l2 == Chunk(r2, z)
      IsAdd(r, x, y) == IF IsFloatT(t) THEN IsNum(t, r, AddX(Dec(t, x), Dec(t, y))) ELSE r = AddW(x, y)
      IsSub(r, x, y) == IF IsFloatT(t) THEN IsNum(t, r, SubX(Dec(t, x), Dec(t, y))) ELSE r = SubW(x, y)
      IsPair(add, r, v, j) == IF add THEN IsAdd(r, v[j], v[j + 1]) ELSE IsSub(r, v[j + 1], v[j])
      per == 16 \div z                                           \* lanes of a block
  IN CASE op = "SumOfLanes" -> Len(l1) = n /\ (\A j \in 1..n : IsSum(t, a, All(a), l1[j]))
       [] op = "ReduceSum" -> IsSum(t, a, All(a), r1)
       [] op = "MinOfLanes" -> Len(l1) = n /\ (\A j \in 1..n : IsExtreme(t, a, All(a), l1[j], -1))
       [] op = "MaxOfLanes" -> Len(l1) = n /\ (\A j \in 1..n : IsExtreme(t, a, All(a), l1[j], 1))
       [] op = "ReduceMin" -> IsExtreme(t, a, All(a), r1, -1)
       [] op = "ReduceMax" -> IsExtreme(t, a, All(a), r1, 1)
       [] op = "MaskedReduceSum" -> IsSum(t, a, sel, rm)
       [] op = "MaskedReduceMin" -> IsExtreme(t, a, sel, rm, -1)
       [] op = "MaskedReduceMax" -> IsExtreme(t, a, sel, rm, 1)
       [] op \in {"PairwiseAdd", "PairwiseSub"} ->
            \A j \in 1..n : IF j % 2 = 1 THEN IsPair(op = "PairwiseAdd", l2[j], a, j) ELSE IsPair(op = "PairwiseAdd", l2[j], b, j - 1)
       [] op \in {"PairwiseAdd128", "PairwiseSub128"} ->
            \A j \in 0..(n - 1) :
              LET blk == j \div per  q == j % per  h == per \div 2
              IN IF q < h THEN IsPair(op = "PairwiseAdd128", l2[j + 1], a, blk * per + 2 * q + 1)
                 ELSE IsPair(op = "PairwiseAdd128", l2[j + 1], b, blk * per + 2 * (q - h) + 1)
       [] op = "SumsOf" ->
            LET g == k[1]  y == z * g  w == Chunk(r1, y)
            IN Len(w) = (IF n < g THEN 1 ELSE n \div g) /\ (\A j \in DOMAIN w : IsGroupSum(t, a, (j - 1) * g, g, w[j]))
       [] op = "SumsOf8AbsDiff" ->
            LET w == Chunk(r2, 8) IN Len(w) = n \div 8 /\ (\A j \in DOMAIN w : w[j] = W(Sad(t, a, b, 8 * (j - 1), 8 * (j - 1), 8), 8))
       [] op = "SumsOfAdjQuadAbsDiff" ->
            LET w == Chunk(r2, 2)
            IN \A i \in 0..((n \div 2) - 1) :
                 (i = 0 \/ n >= 8 * (2 ^ k[1])) =>
                   w[i + 1] = W(Sad(t, a, b, k[1] * 4 + (i \div 8) * 16 + (i % 8), k[2] * 4 + (i \div 8) * 16, 4), 2)
       [] op = "SumsOfShuffledQuadAbsDiff" ->
            LET w == Chunk(r2, 2)
                Idx(q) == k[4 - q]                                \* kIdx0 is the last parameter
                src(x) == (x \div 16) * 16 + 4 * Idx((x % 16) \div 4) + (x % 4)      \* byte x of the shuffled vector comes from here
                sh == [x \in 1..n |-> LET y == src(x - 1) IN IF y < n THEN a[y + 1] ELSE <<0>>]
            IN \A i \in 0..((n \div 2) - 1) :
                 (/\ (n < 16 => (i \div 4) * 8 + (i % 4) + 3 < n)
                  /\ Idx(0) < n \div 4
                  /\ (i > 0 => Idx(1) < n \div 4))
                 => w[i + 1] = W(Sad(t, sh, b, (i \div 4) * 8 + (i % 4), (i \div 2) * 4, 4), 2)
       [] OTHER -> FALSE
=============================================================================
