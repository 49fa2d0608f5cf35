--------------------------- MODULE ProfilerModel ---------------------------
(* The design of the profiler: each thread appends enter and exit packets to a small
   buffer, which overflows into storage, which is analysed when full; analysis keeps
   a stack with the time of children and a self-organising list of accumulators.  At
   the end the lists of all threads are merged and zones of equal name combined.
   TLC checks for every history of at most MaxEvents events that the report is the
   abstract profile, and prints the histories for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEvents, Threads, Buffer, Storage, Emit
Zones == 0..2
Nm(z) == IF z = 2 THEN "b" ELSE "a"          \* zones 0 and 1 have the same name
P == INSTANCE Profiler WITH NameOf <- Nm
VARIABLES clock, buf, sto, stack, acc, nodes, hist, abs, pc, rows
vars == <<clock, buf, sto, stack, acc, nodes, hist, abs, pc, rows>>
Init == /\ clock = [t \in Threads |-> 0] /\ buf = [t \in Threads |-> << >>] /\ sto = [t \in Threads |-> << >>]
        /\ stack = [t \in Threads |-> << >>] /\ acc = [t \in Threads |-> << >>] /\ nodes = [t \in Threads |-> << >>]
        /\ hist = [t \in Threads |-> << >>] /\ abs = [t \in Threads |-> <<<< >>, {}>>] /\ pc = "run" /\ rows = << >>
\* ---- Analysis
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
UpdateOrAdd(a, z, n, d) ==
  IF \E i \in DOMAIN a : a[i][1] = z
  THEN LET i == CHOOSE x \in DOMAIN a : a[x][1] = z
           b == [a EXCEPT ![i] = <<z, a[i][2] + n, a[i][3] + d>>]
       IN IF i = 1 THEN b ELSE Swap(b, i - 1, i)
  ELSE Append(a, <<z, n, d>>)
RECURSIVE Analyze(_, _, _)                   \* packets, nodes, accumulators
Analyze(ps, nd, a) ==
  IF ps = << >> THEN <<nd, a>> ELSE
  LET p == Head(ps) IN
  IF p[1] # -1 THEN Analyze(Tail(ps), Append(nd, [z |-> p[1], t |-> p[2], child |-> 0]), a)
  ELSE LET top == nd[Len(nd)]  d == p[2] - top.t
           rest == SubSeq(nd, 1, Len(nd) - 1)
           up == IF rest = << >> THEN rest ELSE [rest EXCEPT ![Len(rest)].child = @ + d]
       IN Analyze(Tail(ps), up, UpdateOrAdd(a, top.z, 1, d - top.child))
\* ---- Recording: a packet goes to the buffer; a full buffer goes to storage; full storage is analysed.
Write(t, p) ==
  IF Len(buf[t]) < Buffer THEN buf' = [buf EXCEPT ![t] = Append(@, p)] /\ UNCHANGED <<sto, acc, nodes>>
  ELSE /\ buf' = [buf EXCEPT ![t] = <<p>>]
       /\ IF Len(sto[t]) + Buffer > Storage
          THEN LET r == Analyze(sto[t], nodes[t], acc[t]) IN
               nodes' = [nodes EXCEPT ![t] = r[1]] /\ acc' = [acc EXCEPT ![t] = r[2]] /\ sto' = [sto EXCEPT ![t] = buf[t]]
          ELSE sto' = [sto EXCEPT ![t] = @ \o buf[t]] /\ UNCHANGED <<acc, nodes>>
Events == LET n(t) == Len(hist[t]) IN IF Cardinality(Threads) = 1 THEN n(1) ELSE n(1) + n(2)
Log(t, e) == hist' = [hist EXCEPT ![t] = Append(@, e)] /\ abs' = [abs EXCEPT ![t] = P!Apply(abs[t], e)] /\ UNCHANGED <<pc, rows>>
Open == IF Cardinality(Threads) = 1 THEN Len(stack[1]) ELSE Len(stack[1]) + Len(stack[2])
Enter(t, z) == /\ pc = "run" /\ Events + Open + 2 <= MaxEvents
               /\ Write(t, <<z, clock[t]>>) /\ stack' = [stack EXCEPT ![t] = Append(@, z)] /\ Log(t, <<1, z>>) /\ UNCHANGED clock
Work(t) == /\ pc = "run" /\ stack[t] # << >> /\ Events + Open + 1 <= MaxEvents
           /\ hist[t][Len(hist[t])][1] # 2
           \* different amounts, so that no two histories have the same totals by accident
           /\ LET w == 2 ^ Events IN clock' = [clock EXCEPT ![t] = @ + w] /\ Log(t, <<2, w>>)
           /\ UNCHANGED <<buf, sto, stack, acc, nodes>>
Exit(t) == /\ pc = "run" /\ stack[t] # << >>
           /\ Write(t, <<-1, clock[t]>>) /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ Log(t, <<3>>) /\ UNCHANGED clock
\* ---- Report
Remaining(t) ==
  LET r0 == IF Len(sto[t]) + Len(buf[t]) > Storage THEN Analyze(sto[t], nodes[t], acc[t]) ELSE <<nodes[t], acc[t]>>
      ps == IF Len(sto[t]) + Len(buf[t]) > Storage THEN buf[t] ELSE sto[t] \o buf[t]
  IN Analyze(ps, r0[1], r0[2])[2]
RECURSIVE Assimilate(_, _)
Assimilate(a, b) == IF b = << >> THEN a ELSE Assimilate(UpdateOrAdd(a, Head(b)[1], Head(b)[2], Head(b)[3]), Tail(b))
RECURSIVE Merge(_, _)
Merge(a, out) == IF a = << >> THEN out ELSE
   LET nm == Nm(Head(a)[1]) IN
   Merge(Tail(a), IF \E i \in DOMAIN out : out[i][1] = nm
                  THEN LET i == CHOOSE x \in DOMAIN out : out[x][1] = nm IN [out EXCEPT ![i] = <<nm, out[i][2] + Head(a)[2], out[i][3] + Head(a)[3]>>]
                  ELSE Append(out, <<nm, Head(a)[2], Head(a)[3]>>))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x[3] >= y[3] IN <<m>> \o Sorted(S \ {m})
Report == /\ pc = "run" /\ Open = 0 /\ Events > 0 /\ pc' = "done"
          /\ LET a == IF Cardinality(Threads) = 1 THEN Remaining(1) ELSE Assimilate(Remaining(1), Remaining(2))
                 m == Merge(a, << >>) IN rows' = Sorted({m[i] : i \in DOMAIN m})
          /\ UNCHANGED <<clock, buf, sto, stack, acc, nodes, hist, abs>>
Next == Report \/ \E t \in Threads : Work(t) \/ Exit(t) \/ \E z \in Zones : Enter(t, z)
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(a, S) == IF S = {} THEN a ELSE LET x == CHOOSE y \in S : TRUE IN Total(P!Bump(a, x[1], x[2], x[3]), S \ {x})
AbstractTotal == IF Cardinality(Threads) = 1 THEN abs[1][2] ELSE Total(abs[1][2], abs[2][2])
Correct == pc = "done" => P!ReportOK(rows, AbstractTotal, 0, 0)
Written == (Emit /\ pc = "done") => PrintT("HIST " \o ToJson([t \in Threads |-> hist[t]]))
=============================================================================
