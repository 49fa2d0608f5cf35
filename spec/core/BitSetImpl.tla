---------------------------- MODULE BitSetImpl -----------------------------
(* The two-level representation of BitSet4096 (words of WS bits and a summary of
   the non-empty words) refines BitSet; checked for every history over a small
   capacity that is not a multiple of the word size. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Cap, WS
VARIABLES nz, words
NW == (Cap + WS - 1) \div WS
Abs == {i \in 0..(Cap - 1) : (i % WS) \in words[i \div WS]}
B == INSTANCE BitSet WITH set <- Abs
IInit == nz = {} /\ words = [k \in 0..(NW - 1) |-> {}]
ISet(i) == nz' = nz \cup {i \div WS} /\ words' = [words EXCEPT ![i \div WS] = @ \cup {i % WS}]
IClear(i) == LET w == words[i \div WS] \ {i % WS} IN
             words' = [words EXCEPT ![i \div WS] = w] /\ nz' = IF w = {} THEN nz \ {i \div WS} ELSE nz
IBulk(b) == words' = [words EXCEPT ![0] = @ \cup b] /\ nz' = IF b = {} THEN nz ELSE nz \cup {0}
INext == \/ \E i \in 0..(Cap - 1) : ISet(i) \/ IClear(i)
         \/ \E b \in SUBSET (0..(WS - 1)) : IBulk(b)
ISpec == IInit /\ [][INext]_<<nz, words>>
Summary == nz = {k \in DOMAIN words : words[k] # {}}
Min(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
\* First and Count as computed through the summary
FirstOk == nz # {} => LET k == Min(nz) IN k * WS + Min(words[k]) = Min(Abs)
RECURSIVE Sum(_)
Sum(Q) == IF Q = {} THEN 0 ELSE LET k == Min(Q) IN Cardinality(words[k]) + Sum(Q \ {k})
CountOk == Sum(nz) = Cardinality(Abs)
AbsNext == \/ \E i \in 0..(Cap - 1) : B!SetBit(Cap, i) \/ B!ClearBit(Cap, i)
           \/ \E b \in SUBSET (0..(WS - 1)) : Abs' = Abs \cup b
Refines == B!Init /\ [][AbsNext]_Abs
=============================================================================
