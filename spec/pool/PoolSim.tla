------------------------------ MODULE PoolSim ------------------------------
(* Generates histories and schedules from ThreadPool.tla (TLC -simulate): every
   finished behaviour is printed as  nt, operations, sequence of the processes
   that moved; harness/pool.cc replays them on the real code as preferences of
   its scheduler. *)
EXTENDS ThreadPool
VARIABLES sched, hist
SimConfigs == {"Block", "Spin1", "Sep"} \X {"O", "C1", "C2", "C4", "G2", "G4"}
SimInit0 == <<"Block", "O">>
By(p, A) == A /\ sched' = Append(sched, p) /\ UNCHANGED hist
SInit == Init /\ sched = << >> /\ hist = << >>
SNext == \/ \E n \in Tasks : StartRun(n) /\ hist' = Append(hist, n) /\ sched' = Append(sched, 0)
         \/ \E c \in Configs : StartConfig(c) /\ hist' = Append(hist, 0 - 1) /\ sched' = Append(sched, 0)
         \/ ops = MaxOps /\ StartExit /\ UNCHANGED <<sched, hist>>
         \/ By(0, MainStep)
         \/ By(0, Work(Main))
         \/ \E t \in Threads : By(t + 1, Thread(t) \/ TSpurious(t) \/ Work(t))
SSpec == SInit /\ [][SNext]_<<vars, sched, hist>>
Report == op.k = "gone" => PrintT("SCHED " \o ToString(<<NT, hist, sched>>))
=============================================================================
