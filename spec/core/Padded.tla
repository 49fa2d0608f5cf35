------------------------------- MODULE Padded -------------------------------
(* Row-padded storage: aligned multi-dimensional arrays, single-channel images, three-plane images
   and rectangles.  A buffer is [p, lim]: the payload address and the end of the allocator's block
   behind it; addresses are offsets from a multiple of 2^20. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LineAlign == 64
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE ProdR(_, _, _)
ProdR(s, i, acc) == IF i > Len(s) THEN acc ELSE ProdR(s, i + 1, acc * s[i])
Prod(s) == ProdR(s, 1, 1)
Size4(b) == b[1] + 256 * b[2] + 65536 * b[3]          \* requests stay below 2^24
\* The allocator's block behind payload p, from the calls: <<"a", bytes, base, ok>>
LimitOf(calls) == calls[1][3] + Size4(calls[1][2])

--------------------------------- (* N-dimensional arrays *)
\* a = [ts, vb, shape, alloc (shape at construction), p, lim]
RECURSIVE OffR(_, _, _, _)
OffR(idx, mem, k, acc) == IF k > Len(idx) THEN acc * mem[Len(mem)] ELSE OffR(idx, mem, k + 1, acc * mem[k] + idx[k])
RowsOk(a, shape, mem, size, memsize, rows) ==
  LET n == Len(shape)  inner == mem[n] IN
  /\ shape = a.shape /\ size = Prod(shape)
  /\ Len(mem) = n /\ \A k \in 1..(n - 1) : mem[k] = a.alloc[k]
  /\ mem[n] >= a.alloc[n] /\ (mem[n] * a.ts) % a.vb = 0          \* padded to whole vectors
  /\ memsize = Prod(mem)
  /\ a.p >= 0 /\ a.p % 128 = 0 /\ a.p + memsize * a.ts <= a.lim
  /\ Len(rows) = Prod(SubSeq(shape, 1, n - 1))
  /\ \A r \in 1..Len(rows) :
       LET idx == SubSeq(rows[r], 1, n - 1)  off == rows[r][n] IN
       /\ rows[r][n + 1] = shape[n]
       /\ off >= 0 /\ off + inner <= memsize
       /\ (a.p + off * a.ts) % (IF a.vb < 128 THEN a.vb ELSE 128) = 0
       /\ off = OffR(idx, mem, 1, 0)                             \* row major in the padded shape: rows disjoint
  /\ Cardinality({SubSeq(rows[r], 1, n - 1) : r \in 1..Len(rows)}) = Len(rows)

--------------------------------- (* images *)
\* i = [x, y, bpr, p, own (block base or -1), lim]
NoImage == [x |-> 0, y |-> 0, bpr |-> 0, p |-> -1, own |-> -1, lim |-> 0]
\* An image that owns memory gives it back when it is replaced.
FreedOk(i, calls) == calls = IF i.own = -1 THEN << >> ELSE << <<"f", i.own, 1>> >>
\* Stride promised for newly allocated images.
StrideOk(i, ts, vb) ==
  IF i.x = 0 \/ i.y = 0 THEN TRUE
  ELSE /\ i.bpr % vb = 0 /\ i.bpr % LineAlign = 0 /\ i.bpr % ts = 0
       /\ i.bpr % 2048 # 0                                       \* avoids false dependencies
       /\ i.bpr >= i.x * ts + (IF vb = 1 THEN 0 ELSE vb - ts)    \* unaligned vector at the last sample
       /\ i.p % LineAlign = 0
       /\ i.p + i.y * i.bpr <= i.lim
\* The row addresses given out.
RowAddrs(i, rows) == IF i.x = 0 THEN rows = << >> ELSE Len(rows) = i.y /\ \A r \in 1..Len(rows) : rows[r] = i.p + (r - 1) * i.bpr

--------------------------------- (* rectangles and coordinates *)
Clamped(b, m, e) == IF b + m <= e THEN m ELSE IF e > b THEN e - b ELSE 0
MirrorOf(c, n) == LET m == c % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
=============================================================================
