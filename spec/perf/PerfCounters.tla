---------------------------- MODULE PerfCounters ----------------------------
(* Performance counters (hwy/perf_counters.h) on top of the kernel's event groups.

   The kernel side: a set of opened events, each in a group, with a count and the group's enabled and running times.
   A group is scheduled onto the hardware as a whole or not at all, so with more groups than hardware its counts cover
   only `running` of `enabled` time units.  Opening can be refused (unknown event, group too large, unprivileged), or
   interrupted; reading can be interrupted, short or fail.

   The library side: Init opens every counter which the kernel is able to count at all; StartAll / StopAllAndReset
   enable, or disable and zero, all of them; a reading reports count * enabled / running. *)
EXTENDS Integers, FiniteSets, Sequences
Counters == 0 .. 10                        \* kRefCycles .. kMigrations
Names == <<"ref_cycles", "instructions", "branches", "branch_mispredicts", "bus_cycles", "cache_refs", "cache_misses", "l3_load", "l3_store", "page_fault", "migration">>
\* Which kernel event counts it: <<type, config>>; types: 0 hardware, 1 software, 3 cache (config: cache, op << 8, result << 16).
LL == 2
EventOf(c, cyclesOnly) ==
  CASE c = 0 -> IF cyclesOnly THEN <<0, 0>> ELSE <<0, 9>>
    [] c = 1 -> <<0, 1>> [] c = 2 -> <<0, 4>> [] c = 3 -> <<0, 5>> [] c = 4 -> <<0, 6>> [] c = 5 -> <<0, 2>> [] c = 6 -> <<0, 3>>
    [] c = 7 -> <<3, LL + 65536 * 0>> [] c = 8 -> <<3, LL + 256>> [] c = 9 -> <<1, 2>> [] c = 10 -> <<1, 4>>
Hardware(ev) == ev[1] # 1
Cache(ev) == ev[1] = 3
\* Reference cycles always count zero on AMD EPYC before Linux 6.9: plain cycles are used instead.
CyclesOnly(epyc, sysname, major, minor) == epyc /\ sysname = "Linux" /\ (major < 6 \/ (major = 6 /\ minor < 9))

(* A kernel: events it can count, hardware counters per group, cache events per group, and whether it has perf events. *)
FitsGroup(k, g, ev) == Cardinality({e \in g \cup {ev} : Hardware(e)}) <= k.hw /\ Cardinality({e \in g \cup {ev} : Cache(e)}) <= k.llc
Countable(k, ev) == k.perf /\ ev \in k.events
Accepts(k, g, ev) == Countable(k, ev) /\ FitsGroup(k, g, ev)

(* State: groups (sequence of sequences of events), per-event counts, per-group times, whether counting is enabled. *)
Max2(a, b) == IF a > b THEN a ELSE b
EventsOf(s) == UNION {{s.groups[g][i] : i \in 1 .. Len(s.groups[g])} : g \in 1 .. Len(s.groups)}
GroupOf(s, ev) == CHOOSE g \in 1 .. Len(s.groups) : \E i \in 1 .. Len(s.groups[g]) : s.groups[g][i] = ev
Empty == [groups |-> <<>>, count |-> [e \in {} |-> 0], en |-> <<>>, run |-> <<>>, on |-> FALSE]
\* Time passes: the events happen inc[ev] times; only scheduled groups see them.
Tick(s, dt, inc, sched) ==
  IF ~s.on THEN s ELSE
  [s EXCEPT !.en = [g \in DOMAIN s.en |-> s.en[g] + dt],
            !.run = [g \in DOMAIN s.run |-> s.run[g] + (IF g \in sched THEN dt ELSE 0)],
            !.count = [e \in DOMAIN s.count |-> s.count[e] + (IF GroupOf(s, e) \in sched THEN inc[e] ELSE 0)]]
Open(s, g, ev) ==       \* g = 0: a new group
  LET n == IF g = 0 THEN Append(s.groups, <<ev>>) ELSE [s.groups EXCEPT ![g] = Append(@, ev)]
  IN [s EXCEPT !.groups = n, !.count = [e \in DOMAIN s.count \cup {ev} |-> IF e = ev THEN 0 ELSE s.count[e]],
               !.en = IF g = 0 THEN Append(s.en, 0) ELSE s.en, !.run = IF g = 0 THEN Append(s.run, 0) ELSE s.run,
               !.on = s.on]
Reset(s) == [s EXCEPT !.on = FALSE, !.count = [e \in DOMAIN s.count |-> 0]]
Start(s) == [s EXCEPT !.on = TRUE]
=============================================================================
