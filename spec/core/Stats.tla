-------------------------------- MODULE Stats --------------------------------
(* P13.  An object of descriptive statistics is the sequence of samples that reached it, directly
   or by merging.  Reported figures are rationals in the samples; they are compared, scaled by a
   power of ten or two and rounded, in exact arithmetic on wide words (module Words). *)
EXTENDS Words
VARIABLE smp                       \* object -> sequence of integer samples

Wide == 16                                            \* bytes of exact arithmetic
C(i) == W(i, Wide)                                    \* small signed constant
Add(a, b) == AddW(a, b)
Sub(a, b) == SubW(a, b)
Abs(a) == AbsW(a)
Narrow(a) == LET k == CHOOSE k \in 1..Len(a) : (k = 1 \/ a[k] # 0) /\ \A j \in (k + 1)..Len(a) : a[j] = 0 IN SubSeq(a, 1, k)
Mul(a, b) == LET p == ZExt(MulU(Narrow(Abs(a)), Narrow(Abs(b))), 2 * Wide)  t == Trunc(p, Wide) IN IF IsNeg(a) # IsNeg(b) THEN NegW(t) ELSE t
Le(a, b) == CmpS(a, b) # 1
V(k) == SExt(k, Wide)                                 \* a reported 64-bit integer
RECURSIVE SumR(_, _, _)
SumR(s, i, acc) == IF i > Len(s) THEN acc ELSE SumR(s, i + 1, acc + s[i])
Sum(s) == SumR(s, 1, 0)
\* n times the deviations from the mean; samples of one object lie close together, so they are small
Dev(s) == LET n == Len(s)  q == [i \in 1..n |-> s[i] - s[1]]  t == Sum(q) IN [i \in 1..n |-> n * q[i] - t]
T2(s) == LET d == Dev(s) IN Sum([i \in DOMAIN d |-> d[i] * d[i]])
T3(s) == LET d == Dev(s) IN Sum([i \in DOMAIN d |-> d[i] * d[i] * d[i]])
\* the fourth powers may exceed 32 bits: d^2 = 4096 h + l
T4(s) == LET d == Dev(s)
             q == [i \in DOMAIN d |-> d[i] * d[i]]
             hh == Sum([i \in DOMAIN d |-> (q[i] \div 4096) * (q[i] \div 4096)])
             hl == Sum([i \in DOMAIN d |-> (q[i] \div 4096) * (q[i] % 4096)])
             ll == Sum([i \in DOMAIN d |-> (q[i] % 4096) * (q[i] % 4096)])
         IN Add(Add(ShlW(C(hh), 24), ShlW(C(hl), 13)), C(ll))
T(s, k) == IF k = 2 THEN C(T2(s)) ELSE IF k = 3 THEN C(T3(s)) ELSE T4(s)
RECURSIVE NPow(_, _)
NPow(n, k) == IF k = 0 THEN C(1) ELSE Mul(C(n), NPow(n, k - 1))
\* Reported k * den is within tol * den of num
Close(k, num, den, tol) == Le(Abs(Sub(Mul(V(k), den), num)), Mul(C(tol), den))

MinSeq(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MaxSeq(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]

Notify(o, x) == smp' = [smp EXCEPT ![o] = Append(@, x)]
Merge(o, p) == smp' = [smp EXCEPT ![o] = @ \o smp[p]]
Reset(o) == smp' = [smp EXCEPT ![o] = << >>]

CountOk(s, c) == c = Len(s)
EmptyOk(s, ks) == s = << >> /\ \A i \in DOMAIN ks : IsZero(ks[i])
RangeOk(s, lo, hi) == s # << >> /\ lo = MinSeq(s) /\ hi = MaxSeq(s)
MeanOk(s, k) == LET q == [i \in DOMAIN s |-> s[i] - s[1]] IN Close(SubW(k, SExt(ShlW(W(s[1], 8), 10), 8)), C(1024 * Sum(q)), C(Len(s)), 1)
MuOk(s, k, p) == Close(k, Mul(C(1024), T(s, p)), NPow(Len(s), p + 1), IF p = 2 THEN 2 ELSE 64)
VarOk(s, k) == IF Len(s) = 1 THEN Le(Abs(V(k)), C(1)) ELSE Close(k, Mul(C(1024), T(s, 2)), Mul(NPow(Len(s), 2), C(Len(s) - 1)), 2)
\* standard deviation: (k-2)^2 <= 1024^2 var <= (k+2)^2
SdOk(s, k) == IF Len(s) = 1 THEN Le(Abs(V(k)), C(1))
  ELSE LET den == Mul(NPow(Len(s), 2), C(Len(s) - 1))  v == Mul(C(1048576), T(s, 2))
           lo == IF Le(V(k), C(2)) THEN C(0) ELSE Sub(V(k), C(2))  hi == Add(V(k), C(2))
       IN Le(Mul(Mul(lo, lo), den), v) /\ Le(v, Mul(Mul(hi, hi), den))
SignOf(a) == IF IsZero(a) THEN 0 ELSE IF IsNeg(a) THEN -1 ELSE 1
\* skewness * 1000:  n T3^2 / T2^3 [ * ((n-1)/n)^3 ]
SkewOk(s, k, corrected) ==
  LET n == Len(s)  t2 == T(s, 2)  t3 == T(s, 3)  den0 == Mul(Mul(t2, t2), t2)
      num0 == Mul(C(1000000), Mul(C(n), Mul(t3, t3)))
      num == IF corrected THEN Mul(num0, NPow(n - 1, 3)) ELSE num0
      den == IF corrected THEN Mul(den0, NPow(n, 3)) ELSE den0
      a == Abs(V(k))  lo == IF Le(a, C(2)) THEN C(0) ELSE Sub(a, C(2))  hi == Add(a, C(2))
  IN IF IsZero(t2) THEN IsZero(k)
     ELSE /\ Le(Mul(Mul(lo, lo), den), num) /\ Le(num, Mul(Mul(hi, hi), den))
          /\ (Le(a, C(2)) \/ SignOf(V(k)) = SignOf(t3))
KurtOk(s, k, corrected) ==
  LET n == Len(s)  t2 == T(s, 2)  t4 == T(s, 4)
      num0 == Mul(C(1000), Mul(C(n), t4))  den0 == Mul(t2, t2)
  IN IF IsZero(t2) THEN IsZero(k)
     ELSE Close(k, IF corrected THEN Mul(num0, NPow(n - 1, 2)) ELSE num0, IF corrected THEN Mul(den0, NPow(n, 2)) ELSE den0, 2)
RECURSIVE Log2(_)
Log2(x) == IF x = 1 THEN 0 ELSE 1 + Log2(x \div 2)
GeoOk(s, k) == Close(k, Mul(C(1024), C(Sum([i \in DOMAIN s |-> Log2(s[i])]))), C(Len(s)), 1)

(* Robust estimators over unsigned words of equal size. *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SortedOk(in, out) == /\ Len(in) = Len(out)
                     /\ \A i \in 1..(Len(out) - 1) : CmpU(out[i], out[i + 1]) # 1
                     /\ \A i \in DOMAIN in : Count(in, in[i]) = Count(out, in[i])
AvgUp(lo, hi) == LET n == Len(lo)  t == AddW(AddW(ZExt(lo, n + 1), ZExt(hi, n + 1)), W(1, n + 1)) IN Trunc(ShrW(t, 1), n)
MedianOfSorted(s) == LET n == Len(s) IN IF n % 2 = 1 THEN s[(n \div 2) + 1] ELSE AvgUp(s[n \div 2], s[(n \div 2) + 1])
AbsDiff(a, b) == IF CmpU(a, b) = -1 THEN SubW(b, a) ELSE SubW(a, b)
\* m is the median of d: all medians of a multiset agree, so order the elements.
IsMedian(d, m) ==
  LET n == Len(d)
      rank(x) == {1 + Cardinality({j \in 1..n : CmpU(d[j], x) = -1}), Cardinality({j \in 1..n : CmpU(d[j], x) # 1})}   \* first and last position of x
      at(p) == CHOOSE x \in {d[i] : i \in 1..n} : Cardinality({j \in 1..n : CmpU(d[j], x) = -1}) < p /\ p <= Cardinality({j \in 1..n : CmpU(d[j], x) # 1})
  IN m = IF n % 2 = 1 THEN at((n \div 2) + 1) ELSE AvgUp(at(n \div 2), at((n \div 2) + 1))
\* Half-sample mode: repeatedly any of the half-samples with the smallest range.
RECURSIVE Modes(_, _, _)
Modes(s, b, half) ==
  IF half = 0 THEN {s[b]}
  ELSE IF half = 1 THEN {AvgUp(s[b], s[b + 1])}
  ELSE LET r(i) == SubW(s[i + half], s[i])
           best == {i \in b..(b + half - 1) : \A j \in b..(b + half - 1) : CmpU(r(i), r(j)) # 1}
       IN UNION {Modes(s, i, half \div 2) : i \in best}
RobustOk(in, sorted, med, mad, mode) ==
  /\ SortedOk(in, sorted)
  /\ med = MedianOfSorted(sorted)
  /\ IsMedian([i \in DOMAIN in |-> AbsDiff(in[i], med)], mad)
  /\ mode \in Modes(sorted, 1, Len(sorted) \div 2)
=============================================================================
