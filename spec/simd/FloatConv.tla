----------------------------- MODULE FloatConv -----------------------------
(* Conversions between float types and between floats and integers.  Results
   for not-a-number operands converted to integers are unspecified, as are
   out-of-range operands of the InRange variants.                          *)
EXTENDS FloatOps
\* Operand a of type t, result r of type to.
Trunc16(a) == SubSeq(a, 3, 4)     \* bf16 by dropping the low half
\* A value too large for the narrower type, or infinity, saturates or becomes infinite (the documentation
\* calls the demotion saturating; x86 rounds to infinity).
MaxFinite(t) == SubW(InfMag(t), Fit(OneW, Size(t)))
ToFloat(t, to, a, r) ==
  LET x == IF IsFloatT(t) THEN Dec(t, a) ELSE IntVal(Signed(t), a)
  IN \/ Is(to, r, x)
     \/ (to = "bf16" /\ t = "f32" /\ ~IsNaNV(x) /\ r = Trunc16(a))
     \/ (t = "f64" /\ to = "f32" /\ ~IsNaNV(x) /\ Mag(to, Enc(to, x)) = InfMag(to) /\ r = WithSign(x.s, MaxFinite(to)))
\* The two forms whose rounding is unspecified may also drop the payload of a not-a-number.
ToFloatReorder(t, to, a, r) == ToFloat(t, to, a, r) \/ (to = "bf16" /\ t = "f32" /\ r = Trunc16(a))
\* Known deviation of the AVX512_BF16 instructions: subnormal operands count as zero.
Flushed(t, to, a, r) == t = "f32" /\ to = "bf16" /\ Field(t, a) = 0 /\ Mag(to, r) = <<0, 0>> /\ IsNeg(a) = IsNeg(r)
ToInteger(mode, inrange, t, to, a, r) ==
  LET x == Dec(t, a)
  IN IsNaNV(x) \/ (inrange /\ ~InRange(mode, to, x)) \/ r = ToInt(mode, to, x)
One(op, t, to, a, r) ==
  CASE op = "DemoteTo*" -> IF IsFloatT(to) THEN ToFloatReorder(t, to, a, r) ELSE ToInteger("trunc", FALSE, t, to, a, r)
    [] op = "DemoteToFlush" -> ToFloat(t, to, a, r) \/ Flushed(t, to, a, r)
    [] op = "DemoteToFlush*" -> ToFloatReorder(t, to, a, r) \/ Flushed(t, to, a, r)
    [] op \in {"PromoteTo", "DemoteTo", "ConvertTo"} -> (IF IsFloatT(to) THEN ToFloat(t, to, a, r) ELSE ToInteger("trunc", FALSE, t, to, a, r))
    [] op \in {"PromoteInRangeTo", "DemoteInRangeTo", "ConvertInRangeTo"} -> ToInteger("trunc", TRUE, t, to, a, r)
    [] op \in {"NearestInt", "DemoteToNearestInt"} -> ToInteger("near", FALSE, t, to, a, r)
    [] op = "CeilInt" -> ToInteger("ceil", FALSE, t, to, a, r)
    [] op = "FloorInt" -> ToInteger("floor", FALSE, t, to, a, r)
    [] OTHER -> FALSE
Pairs(op, t, to, as, rs) == Len(as) = Len(rs) /\ \A k \in DOMAIN as : One(op, t, to, as[k], rs[k])
\* The results are those of the operands in some order: match greedily by result multiset;
\* sufficient because each operand has at most two allowed results, which are adjacent encodings.
RECURSIVE Matches(_, _, _, _, _)
Matches(op, t, to, as, rs) ==
  IF as = << >> THEN rs = << >>
  ELSE \E k \in DOMAIN rs : One(op, t, to, as[1], rs[k])
         /\ Matches(op, t, to, Tail(as), SubSeq(rs, 1, k - 1) \o SubSeq(rs, k + 1, Len(rs)))
\* f: the suffix of the demotion to use (known deviations).
ExpectF(f, op, t, to, n, c) ==
  LET z == Size(t)  y == Size(to)
      v == Chunk(SubSeq(c, 1, n * z), z)  rl == Chunk(SubSeq(c, n * z + 1, Len(c)), y)
      v2 == Chunk(SubSeq(c, 1, 2 * n * z), z)  rl2 == Chunk(SubSeq(c, 2 * n * z + 1, Len(c)), y)
      h == n \div 2
      half(off, stride) == IF n = 1 THEN v ELSE SubSeq([k \in 1..h |-> v[stride * (k - 1) + off]], 1, h)
  IN CASE op = "PromoteLowerTo" -> Pairs("PromoteTo", t, to, half(1, 1), rl)
       [] op = "PromoteUpperTo" -> Pairs("PromoteTo", t, to, half(h + 1, 1), rl)
       [] op = "PromoteEvenTo" -> Pairs("PromoteTo", t, to, half(1, 2), rl)
       [] op = "PromoteOddTo" -> Pairs("PromoteTo", t, to, half(2, 2), rl)
       [] op = "PromoteInRangeLowerTo" -> Pairs("PromoteInRangeTo", t, to, half(1, 1), rl)
       [] op = "PromoteInRangeUpperTo" -> Pairs("PromoteInRangeTo", t, to, half(h + 1, 1), rl)
       [] op = "PromoteInRangeEvenTo" -> Pairs("PromoteInRangeTo", t, to, half(1, 2), rl)
       [] op = "PromoteInRangeOddTo" -> Pairs("PromoteInRangeTo", t, to, half(2, 2), rl)
       [] op = "OrderedDemote2To" -> Pairs("DemoteTo" \o f, t, to, v2, rl2)
       [] op = "ReorderDemote2To" -> Matches("DemoteTo" \o f \o (IF to = "bf16" THEN "*" ELSE ""), t, to, v2, rl2)
       [] op = "DemoteTo" /\ f # "" -> One(op \o f, t, to, SubSeq(c, 1, z), SubSeq(c, z + 1, Len(c)))
       [] OTHER -> One(op, t, to, SubSeq(c, 1, z), SubSeq(c, z + 1, Len(c)))
Expect(op, t, to, n, c) == ExpectF("", op, t, to, n, c)
\* Rejected, but explained by the known deviation alone.
OnlyFlush(op, t, to, n, c) == t = "f32" /\ to = "bf16" /\ ExpectF("Flush", op, t, to, n, c)
=============================================================================
