----------------------------- MODULE ArrayAlgos -----------------------------
(* The algorithms on arrays as the scalar loops they stand for.  Elements are identifiers of bit
   patterns (r.d, where present, gives the bytes).  A run r has the array r.a before and r.out after
   the call, further inputs r.b and r.c2, what the user function was given and returned (r.calls: a
   sequence of calls, each a sequence of lanes), r.z the identifier of zero, r.n the vector length,
   r.cnt the element count, fault = 1 if inaccessible memory was touched, kept = 1 if the memory
   around all arrays and all read-only inputs are unchanged. *)
EXTENDS Words
FloatT == {"f16", "f32", "f64"}
ExpMant(t) == IF t = "f16" THEN <<0, 124>> ELSE IF t = "f32" THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>
Magn(b) == [b EXCEPT ![Len(b)] = b[Len(b)] % 128]
Equal(r, x, y) == LET a == r.d[x]  b == r.d[y] IN
  IF r.t \in FloatT THEN CmpU(Magn(a), ExpMant(r.t)) # 1 /\ CmpU(Magn(b), ExpMant(r.t)) # 1 /\ (a = b \/ (IsZero(Magn(a)) /\ IsZero(Magn(b))))
  ELSE a = b
Sizes == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, f16 |-> 2, bf16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4, u64 |-> 8, i64 |-> 8, f64 |-> 8]
LaneSet(r) == UNION {{r.calls[k][j] : j \in 1..Len(r.calls[k])} : k \in 1..Len(r.calls)}
\* Lanes given to a predicate are elements of the input or padding.
LanesFrom(r, s) == \A e \in LaneSet(r) : e[1] = r.z \/ e[1] \in {s[i] : i \in 1..Len(s)}
Said(r, x) == \E e \in LaneSet(r) : e[1] = x /\ e[2] = 1
Asked(r, x) == \E e \in LaneSet(r) : e[1] = x
CallCount(r) == (r.cnt + r.n - 1) \div r.n
Flat(r, i) == r.calls[((i - 1) \div r.n) + 1][((i - 1) % r.n) + 1]
Shape(r) == Len(r.calls) = CallCount(r) /\ \A k \in 1..Len(r.calls) : Len(r.calls[k]) = r.n
Opt(s, i) == IF s = << >> THEN 0 ELSE s[i]
TransformOk(r) ==
  LET in == {<<r.a[i], Opt(r.b, i), Opt(r.c2, i)>> : i \in 1..r.cnt}
      ls == LaneSet(r) IN
  /\ \A e \in ls : <<e[1], e[2], e[3]>> \in in \/ <<e[1], e[2], e[3]>> = <<r.z, IF r.b = << >> THEN 0 ELSE r.z, IF r.c2 = << >> THEN 0 ELSE r.z>>
  /\ \A i \in 1..r.cnt : <<r.a[i], Opt(r.b, i), Opt(r.c2, i), r.out[i]>> \in ls
RECURSIVE FilterR(_, _, _, _)
FilterR(s, yes, i, acc) == IF i > Len(s) THEN acc ELSE FilterR(s, yes, i + 1, IF s[i] \in yes THEN Append(acc, s[i]) ELSE acc)
Effect(r) ==
  CASE r.op = "Fill" -> \A i \in 1..r.cnt : r.out[i] = r.new
    [] r.op = "Copy" -> r.out = r.b
    [] r.op = "CopyIf" -> LET yes == {e[1] : e \in {x \in LaneSet(r) : x[2] = 1}}  asked == {e[1] : e \in LaneSet(r)}  k == FilterR(r.b, yes, 1, << >>) IN
         /\ \A i \in 1..r.cnt : r.b[i] \in asked
         /\ LanesFrom(r, r.b) /\ r.ret = Len(k) /\ r.out = k
    [] r.op = "Generate" -> /\ Shape(r)
         /\ \A k \in 1..Len(r.calls) : \A j \in 1..r.n : r.calls[k][j][1] = (IF Sizes[r.t] = 1 THEN ((k - 1) * r.n + j - 1) % 256 ELSE (k - 1) * r.n + j - 1)
         /\ \A i \in 1..r.cnt : r.out[i] = Flat(r, i)[2]
    [] r.op = "Foreach" -> /\ Shape(r) /\ r.out = r.a
         /\ \A i \in 1..(r.n * Len(r.calls)) : Flat(r, i)[1] = IF i <= r.cnt THEN r.a[i] ELSE r.no[((i - 1) % r.n) + 1]
    [] r.op \in {"Transform", "Transform1", "Transform2"} -> TransformOk(r)
    [] r.op = "Replace" -> \A i \in 1..r.cnt : r.out[i] = IF Equal(r, r.a[i], r.old) THEN r.new ELSE r.a[i]
    [] r.op = "ReplaceIf" -> LET yes == {e[1] : e \in {x \in LaneSet(r) : x[2] = 1}}  asked == {e[1] : e \in LaneSet(r)} IN
         LanesFrom(r, r.a) /\ \A i \in 1..r.cnt : r.a[i] \in asked /\ r.out[i] = IF r.a[i] \in yes THEN r.new ELSE r.a[i]
    [] r.op = "Find" -> r.out = r.a /\ r.ret \in 0..r.cnt /\ (r.ret < r.cnt => Equal(r, r.a[r.ret + 1], r.v)) /\ \A i \in 1..r.ret : ~ Equal(r, r.a[i], r.v)
    \* r.yes: the elements for which the predicate is true
    [] r.op = "FindIf" -> LET yes == {r.yes[i] : i \in 1..Len(r.yes)} IN
         /\ r.out = r.a /\ LanesFrom(r, r.a) /\ \A e \in LaneSet(r) : (e[2] = 1) = (e[1] \in yes)
         /\ r.ret \in 0..r.cnt /\ (r.ret < r.cnt => r.a[r.ret + 1] \in yes) /\ \A i \in 1..r.ret : r.a[i] \notin yes
    [] OTHER -> FALSE
Ok(r) == r.fault = 0 /\ r.kept = 1 /\ Effect(r)
=============================================================================
