----------------------------- MODULE ThreadPool ----------------------------
(* Implementation-shaped model of hwy/contrib/thread_pool/thread_pool.h: one
   action per access to a shared atomic (wait epochs, barrier epochs/counters,
   work ranges, futex) and per task start/end.  Covers the three wait policies,
   the six barrier policies, work stealing, the two-phase hand-over of a new
   configuration (SendConfig), late threads, spurious futex wake-ups and the
   exit protocol.  Checked: refinement of ParallelFor (P01, P02), absence of
   deadlock and termination of every call (P03). *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS
  NT,        \* threads in addition to main
  MaxOps,    \* calls per history (in addition to the final destruction)
  Tasks,     \* set of task counts a Run may use
  Configs,   \* set of <<wait type, barrier type>>
  Init0,     \* initial configuration
  CtrBase,   \* barrier slot of counter shard 0; shard s uses CtrBase - s (aliases threads if < NT + s)
  E0,        \* initial epoch (0 in the code; negative values let small counts coincide with epochs)
  CtrDir     \* -1: shards grow downwards (as at the pinned commit), +1: upwards

NW == NT + 1
Main == NT
Threads == 0..(NT-1)
Workers == 0..NT
Slots == 0..(CtrBase + 4)
CtrSlot(s) == CtrBase + CtrDir * s
Shards(b) == CASE b = "C1" -> 1 [] b = "C2" -> 2 [] b = "C4" -> 4 [] OTHER -> 0
GroupSize(b) == CASE b = "G2" -> 2 [] b = "G4" -> 4 [] OTHER -> 1

VARIABLES
  op,        \* current API operation: [k |-> "idle"|"run"|"cfg"|"exit"|"gone", n, cfg]
  ops,       \* operations performed
  phase,     \* 0: not sending a configuration, 1/2: phase of SendConfig
  mpc, mi,   \* main's program counter within one fork-join, loop index
  mcfg,      \* main's <<wait, barrier>> for the current fork-join
  pcfg,      \* the pool's current configuration
  epoch,     \* main's epoch
  kind, ntasks,   \* tasks_: "user" | "latch" | "noop" and number of tasks
  mb, me,    \* my_begin_/my_end_ per worker
  wait, bar, \* wait_epoch_ and barrier_epoch_ storage
  asleep,    \* threads blocked in the futex
  latched, tcfg, texit,  \* per worker latched config (incl. exit flag), thread's own config
  pc, tep, ti,           \* thread program counter, epoch, loop index (group leader)
  wv, wend, wtask,       \* WorkerRun locals: victim position, victim's end, reserved task
  wpc,       \* WorkerRun program counter per worker: "off","begin","end","reserve","start","finish"
  todo, busy \* history variables: tasks not yet started, task being executed per worker

vars == <<op, ops, phase, mpc, mi, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, bar, asleep,
          latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

None == -1
NoOp == [k |-> "idle", n |-> 0, cfg |-> Init0, exit |-> FALSE]

Init ==
  /\ op = NoOp /\ ops = 0 /\ phase = 0 /\ mpc = "idle" /\ mi = 0
  /\ mcfg = Init0 /\ pcfg = Init0 /\ epoch = E0
  /\ kind = "noop" /\ ntasks = 0
  /\ mb = [w \in Workers |-> 0] /\ me = [w \in Workers |-> 0]
  /\ wait = [w \in Workers |-> E0] /\ bar = [s \in Slots |-> E0]
  /\ asleep = {}
  /\ latched = [w \in Workers |-> [cfg |-> Init0, exit |-> FALSE]]
  /\ tcfg = [t \in Threads |-> Init0] /\ texit = [t \in Threads |-> FALSE]
  /\ pc = [t \in Threads |-> "wait"] /\ tep = [t \in Threads |-> E0 + 1] /\ ti = [t \in Threads |-> 0]
  /\ wv = [w \in Workers |-> 0] /\ wend = [w \in Workers |-> 0] /\ wtask = [w \in Workers |-> None]
  /\ wpc = [w \in Workers |-> "off"]
  /\ todo = {} /\ busy = [w \in Workers |-> None]

----------------------------------------------------------------------------
\* API level
DivBegin(n, w) == LET q == n \div NW  r == n % NW IN w * q + (IF w < r THEN w ELSE r)
Divide(n) ==
  IF n > NW THEN mb' = [w \in Workers |-> DivBegin(n, w)] /\ me' = [w \in Workers |-> DivBegin(n, w + 1)]
            ELSE UNCHANGED <<mb, me>>

StartRun(n) ==
  /\ op.k = "idle" /\ ops < MaxOps /\ n >= 2
  /\ op' = [k |-> "run", n |-> n, cfg |-> pcfg, exit |-> FALSE] /\ ops' = ops + 1
  /\ kind' = "user" /\ ntasks' = n /\ Divide(n)
  /\ epoch' = epoch + 1 /\ mcfg' = pcfg /\ mpc' = "reset" /\ mi' = 0 /\ phase' = 0
  /\ todo' = 0..(n-1)
  /\ UNCHANGED <<pcfg, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, busy>>

SendConfig(cfg, exit) ==     \* phase 1: one latch task per worker, old configuration
  /\ kind' = "latch" /\ ntasks' = NW /\ UNCHANGED <<mb, me>>
  /\ epoch' = epoch + 1 /\ mcfg' = pcfg /\ mpc' = "reset" /\ mi' = 0 /\ phase' = 1
  /\ UNCHANGED <<pcfg, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

StartConfig(cfg) ==
  /\ op.k = "idle" /\ ops < MaxOps
  /\ op' = [k |-> "cfg", n |-> 0, cfg |-> cfg, exit |-> FALSE] /\ ops' = ops + 1
  /\ SendConfig(cfg, FALSE)

StartExit ==
  /\ op.k = "idle"
  /\ op' = [k |-> "exit", n |-> 0, cfg |-> pcfg, exit |-> TRUE] /\ UNCHANGED ops
  /\ SendConfig(pcfg, TRUE)

----------------------------------------------------------------------------
\* MainAdapter: reset, wake, work, barrier
MReset ==
  /\ mpc = "reset"
  /\ LET n == Shards(mcfg[2]) IN
       IF mi < n THEN /\ bar' = [bar EXCEPT ![CtrSlot(mi)] = 0] /\ mi' = mi + 1 /\ UNCHANGED mpc
                 ELSE /\ mpc' = "wake" /\ mi' = 0 /\ UNCHANGED bar
  /\ UNCHANGED <<op, ops, phase, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

MWake ==
  /\ mpc = "wake"
  /\ CASE mcfg[1] = "Block" ->
            IF mi = 0 THEN wait' = [wait EXCEPT ![0] = epoch] /\ mi' = 1 /\ UNCHANGED <<mpc, asleep, wpc>>
                      ELSE asleep' = {} /\ mpc' = "work" /\ mi' = 0 /\ wpc' = [wpc EXCEPT ![Main] = "begin"] /\ UNCHANGED wait
       [] mcfg[1] = "Spin1" ->
            wait' = [wait EXCEPT ![0] = epoch] /\ mpc' = "work" /\ mi' = 0 /\ wpc' = [wpc EXCEPT ![Main] = "begin"] /\ UNCHANGED asleep
       [] mcfg[1] = "Sep" ->
            IF mi < NT THEN wait' = [wait EXCEPT ![mi] = epoch] /\ mi' = mi + 1 /\ UNCHANGED <<mpc, asleep, wpc>>
                       ELSE mpc' = "work" /\ mi' = 0 /\ wpc' = [wpc EXCEPT ![Main] = "begin"] /\ UNCHANGED <<wait, asleep>>
  /\ UNCHANGED <<op, ops, phase, mcfg, pcfg, epoch, kind, ntasks, mb, me, bar, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, todo, busy>>

MWorked ==
  /\ mpc = "work" /\ wpc[Main] = "off"
  /\ mpc' = "barrier" /\ mi' = 0
  /\ UNCHANGED <<op, ops, phase, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

SumCtr(n) == LET RECURSIVE S(_) S(i) == IF i = n THEN 0 ELSE bar[CtrSlot(i)] + S(i + 1) IN S(0)

\* All barrier policies spin; a spin step that does not succeed is stuttering, hence the guards.
MBarrier ==
  /\ mpc = "barrier"
  /\ LET b == mcfg[2] IN
       IF Shards(b) > 0
         THEN SumCtr(Shards(b)) = NT /\ mpc' = "joined" /\ mi' = 0
         ELSE IF mi < NT
           THEN bar[mi] = epoch /\ mi' = mi + GroupSize(b) /\ UNCHANGED mpc
           ELSE mpc' = "joined" /\ mi' = 0
  /\ UNCHANGED <<op, ops, phase, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

MJoined ==
  /\ mpc = "joined"
  /\ CASE phase = 0 ->   \* Run returns
            op' = NoOp /\ mpc' = "idle" /\ UNCHANGED <<phase, pcfg, mcfg, kind, ntasks, epoch>>
       [] phase = 1 ->   \* phase 2: no tasks, old wait but new barrier
            /\ phase' = 2 /\ kind' = "noop" /\ ntasks' = 0 /\ epoch' = epoch + 1
            /\ mcfg' = <<pcfg[1], op.cfg[2]>> /\ mpc' = "reset" /\ UNCHANGED <<op, pcfg>>
       [] phase = 2 ->
            /\ phase' = 0 /\ pcfg' = op.cfg /\ UNCHANGED <<kind, ntasks, epoch, mcfg>>
            /\ IF op.exit THEN mpc' = "join" /\ UNCHANGED op ELSE mpc' = "idle" /\ op' = NoOp
  /\ mi' = 0
  /\ UNCHANGED <<ops, mb, me, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

MJoinThreads ==
  /\ mpc = "join" /\ \A t \in Threads : pc[t] = "exited"
  /\ mpc' = "gone" /\ op' = [op EXCEPT !.k = "gone"]
  /\ UNCHANGED <<ops, phase, mi, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, bar, asleep, latched, tcfg, texit, pc, tep, ti, wv, wend, wtask, wpc, todo, busy>>

----------------------------------------------------------------------------
\* ThreadFunc
TUnch == UNCHANGED <<op, ops, phase, mpc, mi, mcfg, pcfg, epoch, kind, ntasks, mb, me, wait, latched, wv, wend, wtask, todo, busy>>

TWait(t) ==
  /\ pc[t] = "wait" /\ t \notin asleep
  /\ CASE tcfg[t][1] = "Block" ->
            IF wait[0] # tep[t] - 1 THEN pc' = [pc EXCEPT ![t] = "latch"]
                                    ELSE pc' = [pc EXCEPT ![t] = "futex"]
       [] tcfg[t][1] = "Spin1" -> wait[0] = tep[t] /\ pc' = [pc EXCEPT ![t] = "latch"]
       [] tcfg[t][1] = "Sep"   -> wait[t] = tep[t] /\ pc' = [pc EXCEPT ![t] = "latch"]
  /\ UNCHANGED <<asleep, bar, tcfg, texit, tep, ti, wpc>> /\ TUnch

TFutex(t) ==   \* the kernel compares and blocks atomically
  /\ pc[t] = "futex"
  /\ asleep' = IF wait[0] = tep[t] - 1 THEN asleep \cup {t} ELSE asleep
  /\ pc' = [pc EXCEPT ![t] = "wait"]
  /\ UNCHANGED <<bar, tcfg, texit, tep, ti, wpc>> /\ TUnch

TSpurious(t) ==
  /\ t \in asleep /\ asleep' = asleep \ {t}
  /\ UNCHANGED <<pc, bar, tcfg, texit, tep, ti, wpc>> /\ TUnch

TLatch(t) ==
  /\ pc[t] = "latch"
  /\ tcfg' = [tcfg EXCEPT ![t] = latched[t].cfg] /\ texit' = [texit EXCEPT ![t] = latched[t].exit]
  /\ pc' = [pc EXCEPT ![t] = "work"] /\ wpc' = [wpc EXCEPT ![t] = "begin"]
  /\ UNCHANGED <<asleep, bar, tep, ti>> /\ TUnch

TWorked(t) ==
  /\ pc[t] = "work" /\ wpc[t] = "off"
  /\ pc' = [pc EXCEPT ![t] = "reach"] /\ ti' = [ti EXCEPT ![t] = t + 1]
  /\ UNCHANGED <<asleep, bar, tcfg, texit, tep, wpc>> /\ TUnch

TReach(t) ==
  /\ pc[t] = "reach"
  /\ LET b == tcfg[t][2]  g == GroupSize(b) IN
     IF Shards(b) > 0
       THEN /\ bar' = [bar EXCEPT ![CtrSlot(t % Shards(b))] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = "next"] /\ UNCHANGED ti
       ELSE IF g > 1 /\ t % g = 0 /\ ti[t] < t + g /\ ti[t] < NT
         THEN bar[ti[t]] = tep[t] /\ ti' = [ti EXCEPT ![t] = @ + 1] /\ UNCHANGED <<bar, pc>>
         ELSE bar' = [bar EXCEPT ![t] = tep[t]] /\ pc' = [pc EXCEPT ![t] = "next"] /\ UNCHANGED ti
  /\ UNCHANGED <<asleep, tcfg, texit, tep, wpc>> /\ TUnch

TNextEpoch(t) ==
  /\ pc[t] = "next"
  /\ IF texit[t] THEN pc' = [pc EXCEPT ![t] = "exited"] /\ UNCHANGED tep
                 ELSE pc' = [pc EXCEPT ![t] = "wait"] /\ tep' = [tep EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<asleep, bar, tcfg, texit, ti, wpc>> /\ TUnch

----------------------------------------------------------------------------
\* Tasks::WorkerRun, executed by main and threads
WUnch == UNCHANGED <<op, ops, phase, mpc, mi, mcfg, pcfg, epoch, kind, ntasks, me, wait, bar, asleep, tcfg, texit, pc, tep, ti>>
Victim(w) == (w + wv[w]) % NW     \* own range first, then the others

WBegin(w) ==
  /\ wpc[w] = "begin"
  /\ IF ntasks > NW THEN wpc' = [wpc EXCEPT ![w] = "end"] /\ wv' = [wv EXCEPT ![w] = 0] /\ UNCHANGED wtask
     ELSE IF w < ntasks THEN wpc' = [wpc EXCEPT ![w] = "start"] /\ wtask' = [wtask EXCEPT ![w] = w] /\ wv' = [wv EXCEPT ![w] = NW]
     ELSE wpc' = [wpc EXCEPT ![w] = "off"] /\ UNCHANGED <<wv, wtask>>
  /\ UNCHANGED <<mb, latched, wend, todo, busy>> /\ WUnch

WEnd(w) ==
  /\ wpc[w] = "end"
  /\ wend' = [wend EXCEPT ![w] = me[Victim(w)]] /\ wpc' = [wpc EXCEPT ![w] = "reserve"]
  /\ UNCHANGED <<mb, latched, wv, wtask, todo, busy>> /\ WUnch

WReserve(w) ==
  /\ wpc[w] = "reserve"
  /\ LET v == Victim(w)  t == mb[v] IN
       /\ mb' = [mb EXCEPT ![v] = t + 1]
       /\ IF t >= wend[w]
            THEN /\ wv' = [wv EXCEPT ![w] = @ + 1] /\ UNCHANGED wtask
                 /\ wpc' = [wpc EXCEPT ![w] = IF wv[w] + 1 = NW THEN "off" ELSE "end"]
            ELSE wtask' = [wtask EXCEPT ![w] = t] /\ wpc' = [wpc EXCEPT ![w] = "start"] /\ UNCHANGED wv
  /\ UNCHANGED <<latched, wend, todo, busy>> /\ WUnch

WStart(w) ==
  /\ wpc[w] = "start"
  /\ IF kind = "user" THEN todo' = todo \ {wtask[w]} /\ busy' = [busy EXCEPT ![w] = wtask[w]] /\ UNCHANGED latched
     ELSE /\ UNCHANGED <<todo, busy>>
          /\ IF kind = "latch" THEN latched' = [latched EXCEPT ![wtask[w]] = [cfg |-> op.cfg, exit |-> op.exit]] ELSE UNCHANGED latched
  /\ wpc' = [wpc EXCEPT ![w] = "finish"]
  /\ UNCHANGED <<mb, wv, wend, wtask>> /\ WUnch

WFinish(w) ==
  /\ wpc[w] = "finish"
  /\ busy' = [busy EXCEPT ![w] = None]
  /\ wtask' = [wtask EXCEPT ![w] = None]
  /\ wpc' = [wpc EXCEPT ![w] = IF wv[w] = NW THEN "off" ELSE "reserve"]
  /\ UNCHANGED <<mb, latched, wv, wend, todo>> /\ WUnch

----------------------------------------------------------------------------
MainStep == MReset \/ MWake \/ MWorked \/ MBarrier \/ MJoined \/ MJoinThreads
Api == (\E n \in Tasks : StartRun(n)) \/ (\E c \in Configs : StartConfig(c)) \/ StartExit
Thread(t) == TWait(t) \/ TFutex(t) \/ TLatch(t) \/ TWorked(t) \/ TReach(t) \/ TNextEpoch(t)
Work(w) == WBegin(w) \/ WEnd(w) \/ WReserve(w) \/ WStart(w) \/ WFinish(w)
Done == op.k = "gone" /\ UNCHANGED vars

Next == Api \/ MainStep \/ Done
        \/ \E t \in Threads : Thread(t) \/ TSpurious(t)
        \/ \E w \in Workers : Work(w)

Fairness == /\ WF_vars(MainStep) /\ WF_vars(Work(Main))
            /\ \A t \in Threads : WF_vars(Thread(t)) /\ WF_vars(Work(t))
            /\ WF_vars(StartExit /\ ops = MaxOps)
Spec == Init /\ [][Next]_vars /\ Fairness

----------------------------------------------------------------------------
\* P01/P02: refinement of the user-visible behaviour
AStatus == CASE op.k = "idle" -> "idle" [] op.k = "run" -> "running" [] op.k = "cfg" -> "switching"
             [] op.k = "exit" -> "closing" [] op.k = "gone" -> "gone"
Abs == INSTANCE ParallelFor WITH status <- AStatus, nw <- NW, todo <- todo, busy <- busy
AbsNext == \/ \E n \in Tasks : Abs!Run(n)
           \/ \E w \in Workers : \E t \in 0..20 : Abs!Start(t, w) \/ Abs!End(t, w)
           \/ Abs!Return \/ Abs!Mode \/ Abs!Moded \/ Abs!Close \/ Abs!Closed(Cardinality({t \in Threads : pc[t] # "exited"}))
Refines == [][AbsNext]_<<AStatus, todo, busy>>

AbsInv == Abs!Inv
\* The release phase: outside a fork-join every thread waits for the next epoch (or is gone).
Quiescent == mpc = "idle" => \A t \in Threads : pc[t] \in {"next", "wait", "futex"}

\* P03
Terminates == /\ (op.k = "run") ~> (op.k = "idle")
              /\ (op.k = "cfg") ~> (op.k = "idle")
              /\ (op.k = "exit") ~> (op.k = "gone")
=============================================================================
