------------------------------ MODULE Topology ------------------------------
(* P39: what hwy::Topology, DataCaches and the thread affinity functions must
   report, given what the operating system says about the machine.

   A configuration c describes the machine as the operating system presents it:
     c.online       number of online logical processors (<= 0: cannot be determined)
     c.pkg, c.core  per logical processor, the identifier in the topology files, as
                    a decimal string; "" if missing, unreadable or not a number
     c.l3           identifier of the shared cache, "" if there is none
     c.l2k, c.l3k   sizes in KiB, 0 if missing
     c.nodes        for each NUMA node in turn the logical processors it lists
     c.caches       entries of the first processor's cache directory
   A result r has r.total, r.lps (package, cluster, core, smt, node of each logical
   processor) and r.pk (per package the clusters and cores with their processors). *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MaxLP == 1024
Total(c) == IF c.online <= 0 THEN 1 ELSE Min(c.online, MaxLP)
LPs(c) == 0..(Total(c) - 1)
Get(s, l, dflt) == IF l + 1 \in DOMAIN s THEN s[l + 1] ELSE dflt
Pkg(c, l) == Get(c.pkg, l, "")
Core(c, l) == Get(c.core, l, "")
L3(c, l) == Get(c.l3, l, "")
Known(c) == \A l \in LPs(c) : Pkg(c, l) # "" /\ Core(c, l) # ""

\* Fields of r.lps[l + 1]
RP(r, l) == r.lps[l + 1][1]
RCl(r, l) == r.lps[l + 1][2]
RCo(r, l) == r.lps[l + 1][3]
RSmt(r, l) == r.lps[l + 1][4]
RNode(r, l) == r.lps[l + 1][5]
Range(s) == {s[i] : i \in DOMAIN s}
\* A set of pairs is a one-to-one correspondence.
Bijective(S) == /\ Cardinality({x[1] : x \in S}) = Cardinality(S)
                /\ Cardinality({x[2] : x \in S}) = Cardinality(S)
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Indices are in range and correspond one-to-one to the identifiers.
Identities(c, r) ==
  /\ \A l \in LPs(c) : /\ RP(r, l) \in 0..(Len(r.pk) - 1)
                       /\ RCl(r, l) \in 0..(Len(r.pk[RP(r, l) + 1].cl) - 1)
                       /\ RCo(r, l) \in 0..(Len(r.pk[RP(r, l) + 1].co) - 1)
  /\ Bijective({<<Pkg(c, l), RP(r, l)>> : l \in LPs(c)})
  /\ \A p \in 0..(Len(r.pk) - 1) :
       LET L == {l \in LPs(c) : RP(r, l) = p} IN
       /\ Bijective({<<Core(c, l), RCo(r, l)>> : l \in L})
       /\ Bijective({<<L3(c, l), RCl(r, l)>> : l \in {x \in L : L3(c, x) # ""}})
       /\ Cardinality({RCl(r, l) : l \in {x \in L : L3(c, x) = ""}}) <= 1
\* The sets of processors are exactly those of the assignment; hence they partition.
Partition(c, r) ==
  \A p \in 0..(Len(r.pk) - 1) :
     LET L == {l \in LPs(c) : RP(r, l) = p} IN
     /\ \A k \in DOMAIN r.pk[p + 1].cl : /\ Range(r.pk[p + 1].cl[k].lps) = {l \in L : RCl(r, l) = k - 1}
                                         /\ r.pk[p + 1].cl[k].lps # << >>
     /\ \A k \in DOMAIN r.pk[p + 1].co : /\ Range(r.pk[p + 1].co[k]) = {l \in L : RCo(r, l) = k - 1}
                                         /\ r.pk[p + 1].co[k] # << >>
                                         /\ {RSmt(r, l) : l \in Range(r.pk[p + 1].co[k])} = 0..(Len(r.pk[p + 1].co[k]) - 1)
     /\ Len(r.pk[p + 1].cl) >= 1
\* Cache sizes of clusters: those of the smallest processor of the cluster.
Sizes(c, r) == \A p \in DOMAIN r.pk : \A k \in DOMAIN r.pk[p].cl :
   LET x == r.pk[p].cl[k]  l == Smallest(Range(x.lps)) IN x.private = Get(c.l2k, l, 0) /\ x.shared = Get(c.l3k, l, 0)
\* Node: the (last) node which lists the processor, 0 if none.
Listing(c, l) == {n \in DOMAIN c.nodes : l \in Range(c.nodes[n])}
Nodes(c, r) == \A l \in LPs(c) : LET N == Listing(c, l) IN
   RNode(r, l) = IF N = {} THEN 0 ELSE (CHOOSE n \in N : \A m \in N : m <= n) - 1

TopologyOK(c, r) ==
  /\ r.total = Total(c)
  /\ IF Known(c)
     THEN /\ Len(r.lps) = Total(c) /\ r.pk # << >>
          /\ Identities(c, r) /\ Partition(c, r) /\ Sizes(c, r) /\ Nodes(c, r)
     ELSE r.pk = << >>

\* ---- Data caches: per level the first complete data or unified cache; size and
\* sets are the portion of one core.
Complete(e) == e.level # 0 /\ e.type \in {"Data", "Unified"} /\ e.size > 0 /\ e.ways > 0 /\ e.sets > 0
Readable(c) == LET bad == {i \in DOMAIN c.caches : c.caches[i].type = ""} IN
   IF bad = {} THEN DOMAIN c.caches ELSE 1..(Smallest(bad) - 1)
Entry(c, lv) == LET S == {i \in Readable(c) : Complete(c.caches[i]) /\ c.caches[i].level = lv} IN
   IF S = {} THEN 0 ELSE Smallest(S)
Sharing(c, e) == LET cores == {<<Pkg(c, l), Core(c, l)>> : l \in {x \in Range(e.shared) : x \in LPs(c)}} IN Max(1, Cardinality(cores))
NoCache == [size |-> 0, sets |-> 0, line |-> 0, ways |-> 0, sharing |-> 0]
LevelOf(c, lv) ==
  LET i == Entry(c, lv) IN IF i = 0 THEN NoCache ELSE
  LET e == c.caches[i]  n == Sharing(c, e)
      x == [size |-> e.size \div n, sets |-> e.sets \div n, line |-> (e.size * 1024) \div (e.ways * e.sets), ways |-> e.ways, sharing |-> n]
  IN IF lv = 3 /\ n >= 16 /\ x.size <= 512 THEN NoCache ELSE x     \* a system-level cache, not an L3
CachesKnown(c) == Known(c) /\ Entry(c, 1) # 0 /\ Entry(c, 2) # 0
CachesOK(c, r) == IF CachesKnown(c) THEN r.caches = [lv \in 1..3 |-> LevelOf(c, lv)] ELSE r.caches = << >>

\* ---- Affinity: the kernel intersects the requested set with what is allowed.
\* State: the current set of the thread.  Each step is <<op, argument, ok, result>>.
RECURSIVE AffR(_, _, _, _)
AffR(allowed, cur, steps, i) ==
  IF i > Len(steps) THEN TRUE ELSE
  LET s == steps[i]  want == Range(s.arg) \cap allowed IN
  CASE s.op = "get" -> s.ok /\ Range(s.res) = cur /\ AffR(allowed, cur, steps, i + 1)
    [] s.op = "getfail" -> ~s.ok /\ AffR(allowed, cur, steps, i + 1)
    [] s.op \in {"set", "pin"} -> /\ s.ok = (want # {})
                                  /\ AffR(allowed, IF want # {} THEN want ELSE cur, steps, i + 1)
AffinityOK(a) == AffR(Range(a.allowed), Range(a.initial), a.steps, 1)
=============================================================================
