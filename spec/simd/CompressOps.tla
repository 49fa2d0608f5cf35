---------------------------- MODULE CompressOps ----------------------------
(* P29: compress keeps the selected lanes, in order, at the low end; expand puts
   consecutive lanes into the selected lanes and zeros the others. *)
EXTENDS LaneTypes

Lane(v, i, w) == SubSeq(v, (i - 1) * w + 1, i * w)               \* 1-based
RECURSIVE Pick(_, _, _, _, _)
Pick(v, m, b, i, w) ==                                           \* lanes whose mask is b, in order
  IF i > Len(m) THEN << >> ELSE (IF m[i] = b THEN Lane(v, i, w) ELSE << >>) \o Pick(v, m, b, i + 1, w)
RECURSIVE Spread(_, _, _, _, _)
Spread(v, m, i, s, w) ==
  IF i > Len(m) THEN << >> ELSE IF m[i] = 1 THEN Lane(v, s, w) \o Spread(v, m, i + 1, s + 1, w) ELSE Zero(w) \o Spread(v, m, i + 1, s, w)
Count(m) == Cardinality({i \in DOMAIN m : m[i] = 1})

Expect(op, t, n, c) ==
  LET w == Size(t)  vb == n * w IN
  CASE op \in {"Compress", "CompressNot", "Expand"} ->
         LET m == SubSeq(c, 2, n + 1)  v == SubSeq(c, n + 2, n + 1 + vb)  r == SubSeq(c, n + 2 + vb, Len(c))
             yes == IF op = "Compress" THEN 1 ELSE 0
             p == Pick(v, m, yes, 1, w)
         IN IF op = "Expand" THEN c[1] = 0 /\ r = Spread(v, m, 1, 1, w)
            ELSE /\ Len(r) = vb
                 /\ IF c[1] = 1 THEN r = p \o Pick(v, m, 1 - yes, 1, w) ELSE SubSeq(r, 1, Len(p)) = p
    [] op \in {"CompressStore", "CompressBlendedStore"} ->
         LET pre == c[2]  post == c[3]  len == pre + vb + post
             m == SubSeq(c, 4, n + 3)  v == SubSeq(c, n + 4, n + 3 + vb)  cnt == SubSeq(c, n + 4 + vb, n + 11 + vb)
             o == n + 11 + vb
             M == SubSeq(c, o + 1, o + len)  M2 == SubSeq(c, o + len + 1, Len(c))
             p == Pick(v, m, 1, 1, w)
         IN /\ c[1] = 0 /\ Len(M2) = len
            /\ cnt = W(Count(m), 8)
            /\ SubSeq(M2, 1, pre) = SubSeq(M, 1, pre)
            /\ SubSeq(M2, pre + 1, pre + Len(p)) = p
            /\ LET keep == IF op = "CompressStore" THEN pre + vb ELSE pre + Len(p) IN SubSeq(M2, keep + 1, len) = SubSeq(M, keep + 1, len)
    [] OTHER -> FALSE
=============================================================================
