------------------------------ MODULE Sorting ------------------------------
(* Sorting, partial sorting and selection as relations between an input sequence, the requested
   order and the rearranged sequence.  Keys are machine words (little-endian bytes); the order of
   every key type is defined here.  A run r has
     d    distinct keys of the input, in claimed ascending order; rk their claimed ranks
     in   the input as indices into d
     w    for every output position the input position whose element it holds (0: no such element) *)
EXTENDS Words
FloatT == {"f16", "f32", "f64"}
SignedT == {"i16", "i32", "i64"}
KeyOf(t, b) == IF t \in {"k64v64", "k32v32"} THEN SubSeq(b, Len(b) \div 2 + 1, Len(b)) ELSE b
ExpMant(t) == IF t = "f16" THEN <<0, 124>> ELSE IF t = "f32" THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>
Magn(b) == [b EXCEPT ![Len(b)] = b[Len(b)] % 128]
IsNan(t, b) == t \in FloatT /\ CmpU(Magn(b), ExpMant(t)) = 1
\* IEEE order of two numbers that are not NaN.
CmpF(a, b) ==
  IF IsZero(Magn(a)) /\ IsZero(Magn(b)) THEN 0
  ELSE IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1)
  ELSE IF IsNeg(a) THEN CmpU(Magn(b), Magn(a)) ELSE CmpU(Magn(a), Magn(b))
CmpKey(t, a, b) ==
  LET x == KeyOf(t, a)  y == KeyOf(t, b) IN
  IF t \in FloatT THEN CmpF(x, y) ELSE IF t \in SignedT THEN CmpS(x, y) ELSE CmpU(x, y)
\* The claimed ranks are those of the order (NaN aside, of which there is at most one representative).
RanksOk(r) ==
  LET nn == {i \in 1..Len(r.d) : ~ IsNan(r.t, r.d[i])} IN
  /\ Cardinality(nn) >= Len(r.d) - 1
  /\ \A i \in nn : i + 1 \in nn => LET c == CmpKey(r.t, r.d[i], r.d[i + 1]) IN
       c <= 0 /\ r.rk[i + 1] - r.rk[i] = (IF c = 0 THEN 0 ELSE 1)
  /\ \A i \in nn : i + 1 <= Len(r.d) /\ i + 1 \notin nn => i + 1 = Len(r.d) \/ ~ \E j \in nn : j > i + 1
  /\ Cardinality({r.d[i] : i \in 1..Len(r.d)}) = Len(r.d)
\* Position of an element in the requested order: NaN last whatever the direction.
Ord(r, e) == IF IsNan(r.t, r.d[e]) THEN Len(r.d) + 2 ELSE IF r.asc = 1 THEN r.rk[e] ELSE Len(r.d) + 1 - r.rk[e]
Out(r, i) == Ord(r, r.in[r.w[i]])
IsPermutation(r) == /\ Len(r.w) = r.n /\ Len(r.in) = r.n
                    /\ \A i \in 1..r.n : r.w[i] \in 1..r.n
                    /\ Cardinality({r.w[i] : i \in 1..r.n}) = r.n
SortedUpTo(r, m) == \A i \in 1..(m - 1) : Out(r, i) <= Out(r, i + 1)
Sorted(r) == SortedUpTo(r, r.n)
PartiallySorted(r) == r.k <= r.n /\ SortedUpTo(r, r.k) /\ (r.k > 0 => LET m == Out(r, r.k) IN \A i \in (r.k + 1)..r.n : m <= Out(r, i))
Selected(r) == r.k < r.n /\ LET m == Out(r, r.k + 1) IN \A i \in 1..r.n : IF i <= r.k THEN Out(r, i) <= m ELSE m <= Out(r, i)
Ok(r) ==
  /\ r.guard = 1 /\ RanksOk(r) /\ IsPermutation(r)
  /\ CASE r.op = "sort" -> Sorted(r) [] r.op = "partial" -> PartiallySorted(r) [] r.op = "select" -> Selected(r) [] OTHER -> FALSE
=============================================================================
