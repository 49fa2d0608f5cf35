----------------------------- MODULE PerfModel -----------------------------
(* Design: first fit into the newest group, else a new group; start, stop-and-reset, multiplexed ticks.
   For every kernel (capacities and countable events) all countable events get opened in groups which fit, and readings are sound. *)
EXTENDS PerfCounters, TLC
CONSTANTS Evs, MaxHw, MaxTicks
VARIABLES k, s, todo, ticks, total
vars == <<k, s, todo, ticks, total>>
Order == <<<<0, 9>>, <<0, 1>>, <<1, 2>>, <<3, 2>>, <<3, 258>>, <<0, 4>>>>
Init == /\ k \in [perf : BOOLEAN, events : SUBSET {Order[n] : n \in 1 .. Evs}, hw : 0 .. MaxHw, llc : 0 .. 2]
        /\ s = Empty /\ todo = SubSeq(Order, 1, Evs) /\ ticks = 0 /\ total = [e \in {} |-> 0]
InGroup(g) == {s.groups[g][n] : n \in 1 .. Len(s.groups[g])}
OpenNext == /\ todo # <<>>
            /\ LET ev == Head(todo) last == Len(s.groups) IN
               s' = IF last > 0 /\ Accepts(k, InGroup(last), ev) THEN Open(s, last, ev)
                    ELSE IF Accepts(k, {}, ev) THEN Open(s, 0, ev) ELSE s
            /\ todo' = Tail(todo) /\ UNCHANGED <<k, ticks>> /\ total' = [e \in EventsOf(s') |-> 0]
Run == /\ todo = <<>> /\ s.groups # <<>> /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ UNCHANGED <<k, todo>>
       /\ \/ s' = Start(s) /\ total' = total
          \/ s' = Reset(s) /\ total' = [e \in DOMAIN total |-> 0]
          \/ \E sched \in SUBSET (1 .. Len(s.groups)) :
               /\ s' = Tick(s, 1, [e \in EventsOf(s) |-> 1], sched)
               /\ total' = [e \in DOMAIN total |-> IF s.on THEN total[e] + 1 ELSE total[e]]
Next == OpenNext \/ Run
Spec == Init /\ [][Next]_vars
Groups == 1 .. Len(s.groups)
AllFit == \A g \in Groups : s.groups[g] # <<>> /\ FitsGroup(k, InGroup(g), s.groups[g][1])
Once == \A g, h \in Groups : \A a \in 1 .. Len(s.groups[g]), b \in 1 .. Len(s.groups[h]) : s.groups[g][a] = s.groups[h][b] => g = h /\ a = b
Complete == todo = <<>> => EventsOf(s) = {Order[n] : n \in {m \in 1 .. Evs : Accepts(k, {}, Order[m])}}
Sound == \A e \in EventsOf(s) : /\ s.count[e] <= total[e] /\ s.run[GroupOf(s, e)] <= s.en[GroupOf(s, e)]
                                /\ (s.run[GroupOf(s, e)] = s.en[GroupOf(s, e)] => s.count[e] = total[e])     \* exact if never multiplexed
=============================================================================
