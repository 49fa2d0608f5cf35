------------------------------- MODULE BitSet -------------------------------
(* P12.  A bit set of capacity Cap is a set of indices. *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE set

Init == set = {}
Members(s) == {s[i] : i \in DOMAIN s}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Min(Q) == CHOOSE x \in Q : \A y \in Q : x <= y

SetBit(cap, i) == i \in 0..(cap - 1) /\ set' = set \cup {i}
ClearBit(cap, i) == i \in 0..(cap - 1) /\ set' = set \ {i}
Bulk(cap, is) == Members(is) \subseteq 0..(cap - 1) /\ set' = set \cup Members(is)
Get(i, r) == (r = 1) = (i \in set) /\ UNCHANGED set
Any(r) == (r = 1) = (set # {}) /\ UNCHANGED set
First(r) == set # {} /\ r = Min(set) /\ UNCHANGED set
Count(r) == r = Cardinality(set) /\ UNCHANGED set
Get64(is) == Members(is) = {i \in set : i < 64} /\ UNCHANGED set
Each(is) == Ascending(is) /\ Members(is) = set /\ UNCHANGED set
=============================================================================
