---------------------------- MODULE RandomStreams ----------------------------
(* The published generators (Blackman and Vigna): splitmix64, and xoshiro256++ with its two jump polynomials, over
   64-bit words as byte sequences.  A vector generator is `lanes` scalar generators, the k-th of them k jumps after the
   first; stream `thread` starts that many long jumps later.  State: one 4-word state per lane. *)
EXTENDS Words
\* TLC evaluates functions lazily; long chains of operations need explicit tuples.
T8(a) == << a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8] >>
Xor(a, b) == T8(XorW(a, b))
Rotl(a, k) == LET l == T8(ShlW(a, k)) r == T8(ShrW(a, 64 - k)) IN T8(OrW(l, r))
MulT(a, b) == T8(MulU(a, b))
Gamma == <<21, 124, 74, 127, 185, 121, 55, 158>>     \* 9e3779b97f4a7c15
M1 == <<185, 229, 228, 28, 109, 71, 88, 191>>        \* bf58476d1ce4e5b9
M2 == <<235, 17, 49, 19, 187, 73, 208, 148>>         \* 94d049bb133111eb
Mix(z) == LET a == MulT(Xor(z, T8(ShrW(z, 30))), M1) b == MulT(Xor(a, T8(ShrW(a, 27))), M2) IN Xor(b, T8(ShrW(b, 31)))
RECURSIVE SplitR(_, _, _)
SplitR(s, k, acc) == IF k = 0 THEN acc ELSE LET s2 == AddW(s, Gamma) IN SplitR(s2, k - 1, Append(acc, Mix(s2)))
Split(seed, k) == SplitR(seed, k, << >>)
\* xoshiro256++
Out(s) == AddW(Rotl(AddW(s[1], s[4]), 23), s[1])
Step(s) == LET t == T8(ShlW(s[2], 17))
               c == Xor(s[3], s[1])  d == Xor(s[4], s[2])  b == Xor(s[2], c)  a == Xor(s[1], d)
           IN << a, b, Xor(c, t), Rotl(d, 45) >>
\* Bits of the published constants, words in order, low bit first.
JumpBytes == << 186,10,253,60,211,198,14,24,  44,57,201,240,102,18,166,213,  170,201,63,224,24,38,88,169,  28,102,177,41,69,220,171,57 >>
LongBytes == << 191,203,253,254,62,93,225,118,  179,47,82,28,68,78,0,197,  65,226,78,133,105,0,113,119,  53,230,203,42,176,155,16,57 >>
Xor4(a, b) == << Xor(a[1], b[1]), Xor(a[2], b[2]), Xor(a[3], b[3]), Xor(a[4], b[4]) >>
RECURSIVE JumpR(_, _, _, _)
JumpR(poly, s, k, acc) == IF k = 256 THEN acc
  ELSE JumpR(poly, Step(s), k + 1, IF (poly[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2 = 1 THEN Xor4(acc, s) ELSE acc)
Zero4 == << Zero(8), Zero(8), Zero(8), Zero(8) >>
Jump(s) == JumpR(JumpBytes, s, 0, Zero4)
LongJump(s) == JumpR(LongBytes, s, 0, Zero4)
RECURSIVE Iter(_, _, _)
Iter(f(_), s, k) == IF k = 0 THEN s ELSE Iter(f, f(s), k - 1)
RECURSIVE LanesR(_, _, _)
LanesR(s, k, acc) == IF k = 0 THEN acc ELSE LanesR(IF k = 1 THEN s ELSE Jump(s), k - 1, Append(acc, s))
VectorInit(seed, thread, lanes) == LanesR(Iter(LongJump, Split(seed, 4), thread), lanes, << >>)
ScalarInit(seed, thread) == << Iter(Jump, Split(seed, 4), thread) >>
\* n numbers in rounds of one per lane; unused numbers of the last round are dropped.
RECURSIVE StepAll(_, _, _)
StepAll(st, l, acc) == IF l > Len(st) THEN acc ELSE StepAll(st, l + 1, Append(acc, Step(st[l])))
RECURSIVE GenR(_, _, _)
GenR(st, n, acc) == IF n <= 0 THEN [st |-> st, out |-> acc]
  ELSE GenR(StepAll(st, 1, << >>), n - Len(st), acc \o [l \in 1..(IF n < Len(st) THEN n ELSE Len(st)) |-> Out(st[l])])
Gen(st, n) == GenR(st, n, << >>)
\* The double (x >> 11) * 2^-53.
Uniform(x) == LET m == ShrW(x, 11) h == HighBit(m) IN
  IF h < 0 THEN Zero(8)
  ELSE LET frac == ShlW(m, 52 - h)                        \* top bit at position 52
           mant == [frac EXCEPT ![7] = frac[7] % 16, ![8] = 0]
           e == (1023 - 53) + h
       IN [mant EXCEPT ![7] = mant[7] + (e % 16) * 16, ![8] = e \div 16]
InUnit(d) == d[8] < 63 \/ (d[8] = 63 /\ d[7] < 240)      \* below 1.0, not negative
=============================================================================
