--------------------------- MODULE TopologyModel ---------------------------
(* The design: two passes over the processors, renumbering the identifiers in order
   of first appearance, per package for clusters and cores.  TLC enumerates every
   configuration of up to N processors over the identifiers below (missing ones
   included), checks that the design satisfies the requirements of Topology, and
   writes the configurations for replay in the implementation. *)
EXTENDS Topology, TLC, Json
CONSTANT N, Emit
Ids == {"", "0", "7"}
VARIABLES c, pc, lp, pkgs, lps, per
vars == <<c, pc, lp, pkgs, lps, per>>
\* Sequences of distinct identifiers in order of appearance.
Index(s, x) == IF \E k \in DOMAIN s : s[k] = x THEN (CHOOSE k \in DOMAIN s : s[k] = x) - 1 ELSE Len(s)
Add(s, x) == IF \E k \in DOMAIN s : s[k] = x THEN s ELSE Append(s, x)
Init == \E n \in 1..N : \E P \in [1..n -> Ids], C \in [1..n -> Ids], K \in [1..n -> Ids] :
  /\ c = [online |-> n, pkg |-> P, core |-> C, l3 |-> K, l2k |-> << >>, l3k |-> << >>, nodes |-> << >>, caches |-> << >>]
  /\ pc = "packages" /\ lp = 0 /\ pkgs = << >> /\ lps = [k \in 1..n |-> <<0, 0, 0, 0, 0>>] /\ per = << >>
Unknown == pc' = "unknown" /\ UNCHANGED <<c, lp, pkgs, lps, per>>
Packages == /\ pc = "packages"
            /\ IF lp = Total(c) THEN pc' = "cores" /\ lp' = 0 /\ per' = [p \in DOMAIN pkgs |-> [cl |-> << >>, co |-> << >>, n |-> << >>]] /\ UNCHANGED <<c, pkgs, lps>>
               ELSE IF Pkg(c, lp) = "" THEN Unknown
               ELSE /\ lps' = [lps EXCEPT ![lp + 1][1] = Index(pkgs, Pkg(c, lp))]
                    /\ pkgs' = Add(pkgs, Pkg(c, lp)) /\ lp' = lp + 1 /\ UNCHANGED <<c, pc, per>>
Cores == /\ pc = "cores"
         /\ IF lp = Total(c) THEN pc' = "known" /\ UNCHANGED <<c, lp, pkgs, lps, per>>
            ELSE IF Core(c, lp) = "" THEN Unknown
            ELSE LET p == lps[lp + 1][1] + 1
                     cl == IF L3(c, lp) = "" THEN 0 ELSE Index(per[p].cl, L3(c, lp))
                     co == Index(per[p].co, Core(c, lp))
                     seen == Cardinality({m \in 0..(lp - 1) : lps[m + 1][1] = p - 1 /\ lps[m + 1][3] = co})
                 IN /\ lps' = [lps EXCEPT ![lp + 1] = <<p - 1, cl, co, seen, 0>>]
                    /\ per' = [per EXCEPT ![p].cl = IF L3(c, lp) = "" THEN @ ELSE Add(@, L3(c, lp)), ![p].co = Add(@, Core(c, lp))]
                    /\ lp' = lp + 1 /\ UNCHANGED <<c, pc, pkgs>>
Next == Packages \/ Cores
Spec == Init /\ [][Next]_vars
\* The result the design yields.
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE <<Smallest(S)>> \o SeqOf(S \ {Smallest(S)})
Result == [total |-> Total(c), lps |-> lps, pk |-> IF pc = "unknown" THEN << >> ELSE
  [p \in DOMAIN per |-> [cl |-> [k \in 1..Max(1, Len(per[p].cl)) |-> [lps |-> SeqOf({l \in LPs(c) : lps[l + 1][1] = p - 1 /\ lps[l + 1][2] = k - 1}), private |-> 0, shared |-> 0]],
                         co |-> [k \in DOMAIN per[p].co |-> SeqOf({l \in LPs(c) : lps[l + 1][1] = p - 1 /\ lps[l + 1][3] = k - 1})]]]]
Meets == pc \in {"known", "unknown"} => TopologyOK(c, Result)
Written == (Emit /\ pc = "packages" /\ lp = 0) => PrintT("CFG " \o ToJson([pkg |-> c.pkg, core |-> c.core, l3 |-> c.l3]))
=============================================================================
