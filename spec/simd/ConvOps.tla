------------------------------ MODULE ConvOps ------------------------------
(* Integer conversions of the SIMD machine.  A lane is a word; t is the type of
   the operand, to the type of the result. *)
EXTENDS LaneTypes
Demoted(t, to, a) ==   \* clamp to the range of the destination
  LET n == Size(to)  w == Ext(Signed(t), a, Size(t) + 1) IN Sat(Signed(to), w, n)
Truncated(to, a) == Trunc(a, Size(to))
Promoted(t, to, a) == Ext(Signed(t), a, Size(to))

Map(F(_), s) == SubSeq([k \in DOMAIN s |-> F(s[k])], 1, Len(s))
Count(x, s) == Cardinality({k \in DOMAIN s : s[k] = x})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A x \in {a[k] : k \in DOMAIN a} : Count(x, a) = Count(x, b)

Expect(op, t, to, n, c) ==
  LET z == Size(t)  y == Size(to)
      a == SubSeq(c, 1, z)  r == SubSeq(c, z + 1, Len(c))             \* lane-wise: one operand, one result
      v == Chunk(SubSeq(c, 1, n * z), z)  rv == SubSeq(c, n * z + 1, Len(c))   \* whole vectors: n lanes
      v2 == Chunk(SubSeq(c, 1, 2 * n * z), z)  rv2 == SubSeq(c, 2 * n * z + 1, Len(c))
      rl == Chunk(rv, y)  rl2 == Chunk(rv2, y)
      pro(x) == Promoted(t, to, x)  dem(x) == Demoted(t, to, x)  tru(x) == Truncated(to, x)
      Every(off, stride) == SubSeq([k \in 1..(n \div 2) |-> v[stride * (k - 1) + off]], 1, n \div 2)
  IN CASE op = "DemoteTo" -> r = dem(a)
       [] op = "TruncateTo" -> r = tru(a)
       [] op = "U8FromU32" -> r = tru(a)
       [] op = "PromoteTo" -> r = pro(a)
       [] op = "PromoteLowerTo" -> rl = (IF n = 1 THEN Map(pro, v) ELSE Map(pro, SubSeq(v, 1, n \div 2)))
       [] op = "PromoteUpperTo" -> rl = Map(pro, SubSeq(v, (n \div 2) + 1, n))
       [] op = "PromoteEvenTo" -> rl = (IF n = 1 THEN Map(pro, v) ELSE Map(pro, Every(1, 2)))
       [] op = "PromoteOddTo" -> rl = Map(pro, Every(2, 2))
       [] op = "OrderedDemote2To" -> rl2 = Map(dem, v2)
       [] op = "OrderedTruncate2To" -> rl2 = Map(tru, v2)
       [] op = "ReorderDemote2To" -> IsPermutation(rl2, Map(dem, v2))
       [] op = "ResizeBitCast" ->        \* bytes beyond the operand are unspecified
            LET k == IF Len(rv) < n * z THEN Len(rv) ELSE n * z IN SubSeq(rv, 1, k) = SubSeq(c, 1, k)
       [] op = "ZeroExtendResizeBitCast" ->
            \A k \in DOMAIN rv : rv[k] = (IF k <= n * z THEN c[k] ELSE 0)
       [] OTHER -> FALSE
=============================================================================
