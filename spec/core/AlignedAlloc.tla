---------------------------- MODULE AlignedAlloc ----------------------------
(* Aligned allocation on top of an arbitrary allocator.
   live[p] = [base, req, n]: payload p of n bytes inside the allocator's block
   [base, base + req).  Addresses are offsets from a multiple of 2^20; -1 is null.
   Sizes are 8-byte words because requests may be up to 2^64 - 1. *)
EXTENDS Words
CONSTANT Align
VARIABLE live
Init == live = << >>
\* 16-byte product of the element size and count.
Product(ts, items) == Trunc(MulU(W(ts, 2), items) \o Zero(8), 16)
Half == [i \in 1..16 |-> IF i < 8 THEN 255 ELSE IF i = 8 THEN 127 ELSE 0]     \* 2^63 - 1
TooBig(ts, items) == CmpU(Product(ts, items), Half) >= 0
Disjoint(p, n) == \A q \in DOMAIN live : p + n <= q \/ q + live[q].n <= p
\* calls: what the underlying allocator was asked, in order: <<"a", bytes, base, opaque ok>>
AllocOk(ts, items, calls, p) ==
  IF TooBig(ts, items) THEN p = -1 /\ calls = << >>
  ELSE /\ Len(calls) = 1
       /\ calls[1][1] = "a" /\ calls[1][4] = 1
       /\ CmpU(ZExt(calls[1][2], 16), Product(ts, items)) >= 0
       /\ IF calls[1][3] < 0 THEN p = -1
          ELSE LET n == U(Trunc(Product(ts, items), 4))  req == U(Trunc(calls[1][2], 4))  b == calls[1][3] IN
               p >= b /\ p + n <= b + req /\ p % Align = 0 /\ Disjoint(p, n)
Alloc(ts, items, calls, p) ==
  live' = IF p < 0 THEN live
          ELSE [q \in DOMAIN live \cup {p} |-> IF q = p THEN [base |-> calls[1][3], n |-> U(Trunc(Product(ts, items), 4))] ELSE live[q]]
FreeOk(p, calls) ==
  IF p = -1 THEN calls = << >>
  ELSE p \in DOMAIN live /\ calls = << <<"f", live[p].base, 1>> >>
Free(p) == live' = [q \in DOMAIN live \ {p} |-> live[q]]
=============================================================================
