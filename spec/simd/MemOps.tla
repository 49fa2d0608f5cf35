------------------------------- MODULE MemOps -------------------------------
(* P26/P27: loads and stores as transitions of a byte memory.  A case is
   <<fault, pre, post, lenHi, lenLo>> \o mem \o mem' \o operands \o result: the
   op addresses the len bytes that follow the first pre bytes of mem; memory
   outside the accessible window faults. *)
EXTENDS LaneTypes

Lane(v, i, w) == SubSeq(v, (i - 1) * w + 1, i * w)
Clip(b) == IF \E j \in 3..8 : b[j] # 0 THEN 100000 ELSE b[1] + 256 * b[2]
Min2(a, b) == IF a < b THEN a ELSE b
\* mem with bytes [at, at + Len(s)) replaced (at: 0-based)
Write(mem, at, s) == SubSeq(mem, 1, at) \o s \o SubSeq(mem, at + Len(s) + 1, Len(mem))
RECURSIVE Rep(_, _, _)
Rep(s, k, acc) == IF k = 0 THEN acc ELSE Rep(s, k - 1, acc \o s)

\* Elements written by several lanes hold the value of one of them.
Scattered(M, M2, fault, pre, len, post, w, active, idx(_), v) ==
  /\ fault = 0
  /\ SubSeq(M2, 1, pre) = SubSeq(M, 1, pre)
  /\ SubSeq(M2, pre + len + 1, Len(M)) = SubSeq(M, pre + len + 1, Len(M))
  /\ \A e \in 0..(len \div w - 1) :
       LET ws == {i \in active : idx(i) = e}
           old == SubSeq(M, pre + e * w + 1, pre + (e + 1) * w)
           new == SubSeq(M2, pre + e * w + 1, pre + (e + 1) * w)
       IN IF ws = {} THEN new = old ELSE \E i \in ws : new = Lane(v, i, w)

Expect(op, t, n, c) ==
  LET w == Size(t)  vb == n * w
      fault == c[1]  pre == c[2]  post == c[3]  len == 256 * c[4] + c[5]
      L == pre + len + post
      M == SubSeq(c, 6, 5 + L)  M2 == SubSeq(c, 6 + L, 5 + 2 * L)
      X == SubSeq(c, 6 + 2 * L, Len(c))            \* operands and result
      At(k) == SubSeq(M, pre + 1, pre + k)         \* the first k addressed bytes
      Loaded(skip, r) == fault = 0 /\ M2 = M /\ SubSeq(X, skip + 1, Len(X)) = r
      Stored(s) == fault = 0 /\ M2 = Write(M, pre, s)
      mask == SubSeq(X, 1, n)
      \* accessible bytes of the addressed vector, padded
      full == IF len >= vb THEN At(vb) ELSE At(len) \o Zero(vb - len)
      k == Clip(SubSeq(X, 1, 8))  kk == Min2(k, n)
      Sel(no) == Concat([i \in 1..n |-> IF mask[i] = 1 THEN Lane(full, i, w) ELSE Lane(no, i, w)], 1, << >>)
  IN
  CASE op = "LoadU" -> Loaded(0, At(vb))
    [] op = "StoreU" -> Stored(SubSeq(X, 1, vb))
    [] op = "Stream" -> fault = 0 /\ SubSeq(M2, 1, pre) = SubSeq(M, 1, pre) /\ SubSeq(M2, pre + 1, pre + vb) = SubSeq(X, 1, vb)
                        /\ SubSeq(M2, pre + len + 1, L) = SubSeq(M, pre + len + 1, L)
    [] op = "MaskedLoad" -> Loaded(n, Sel(Zero(vb)))
    [] op = "MaskedLoadOr" -> Loaded(n + vb, Sel(SubSeq(X, n + 1, n + vb)))
    [] op = "BlendedStore" -> Stored(Trunc(Concat([i \in 1..n |-> IF mask[i] = 1 THEN Lane(SubSeq(X, n + 1, n + vb), i, w) ELSE Lane(full, i, w)], 1, << >>), Min2(len, vb)))
    [] op = "LoadDup128" -> Loaded(0, Rep(At(16), vb \div 16, << >>))
    [] op = "InsertIntoUpper" -> Loaded(vb, SubSeq(X, 1, vb \div 2) \o At(vb \div 2))
    [] op = "TruncateStore" -> LET nw == len \div n IN Stored(Concat([i \in 1..n |-> Trunc(Lane(X, i, w), nw)], 1, << >>))
    [] op = "LoadN" -> Loaded(8, At(kk * w) \o Zero((n - kk) * w))
    [] op = "LoadNOr" -> Loaded(8 + vb, At(kk * w) \o SubSeq(X, 8 + kk * w + 1, 8 + vb))
    [] op = "StoreN" -> Stored(SubSeq(X, 9, 8 + kk * w))
    [] op = "SafeFillN" -> Stored(Rep(SubSeq(X, 9, 8 + w), kk, << >>))
    [] op = "SafeCopyN" -> Stored(SubSeq(X, 9, 8 + kk * w))
    [] op \in {"LoadInterleaved2", "LoadInterleaved3", "LoadInterleaved4"} ->
         LET kc == len \div vb IN Loaded(0, Concat([q \in 1..(kc * n) |-> Lane(At(len), ((q - 1) % n) * kc + ((q - 1) \div n) + 1, w)], 1, << >>))
    [] op \in {"StoreInterleaved2", "StoreInterleaved3", "StoreInterleaved4"} ->
         LET kc == len \div vb IN Stored(Concat([q \in 1..(kc * n) |-> Lane(X, ((q - 1) % kc) * n + ((q - 1) \div kc) + 1, w)], 1, << >>))
    \* indices are one byte each; disabled lanes address inaccessible memory
    [] op = "Gather" -> Loaded(n, Concat([i \in 1..n |-> Lane(At(len), X[i] + 1, w)], 1, << >>))
    [] op = "MaskedGather" -> Loaded(2 * n, Concat([i \in 1..n |-> IF mask[i] = 1 THEN Lane(At(len), X[n + i] + 1, w) ELSE Zero(w)], 1, << >>))
    [] op = "MaskedGatherOr" -> Loaded(2 * n + vb, Concat([i \in 1..n |-> IF mask[i] = 1 THEN Lane(At(len), X[n + i] + 1, w) ELSE Lane(SubSeq(X, 2 * n + 1, 2 * n + vb), i, w)], 1, << >>))
    [] op = "GatherN" -> Loaded(1 + n, Concat([i \in 1..n |-> IF i <= X[1] THEN Lane(At(len), X[1 + i] + 1, w) ELSE Zero(w)], 1, << >>))
    [] op = "GatherNOr" -> Loaded(1 + n + vb, Concat([i \in 1..n |-> IF i <= X[1] THEN Lane(At(len), X[1 + i] + 1, w) ELSE Lane(SubSeq(X, n + 2, n + 1 + vb), i, w)], 1, << >>))
    [] op = "Scatter" -> Scattered(M, M2, fault, pre, len, post, w, 1..n, LAMBDA i : X[i], SubSeq(X, n + 1, n + vb))
    [] op = "MaskedScatter" -> Scattered(M, M2, fault, pre, len, post, w, {i \in 1..n : mask[i] = 1}, LAMBDA i : X[n + i], SubSeq(X, 2 * n + 1, 2 * n + vb))
    [] op = "ScatterN" -> Scattered(M, M2, fault, pre, len, post, w, {i \in 1..n : i <= X[1]}, LAMBDA i : X[1 + i], SubSeq(X, n + 2, n + 1 + vb))
    [] OTHER -> FALSE
=============================================================================
