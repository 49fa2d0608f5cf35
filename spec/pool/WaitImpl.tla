------------------------------ MODULE WaitImpl ------------------------------
(* The waiting loops as implemented: load; compare; then either block in the kernel (which compares
   the variable again, atomically with enqueueing) or arm a monitor, load again, and wait for the
   monitor.  The kernel or processor may return spuriously.  Invariants and liveness are those of
   Waits, so this design keeps its promises in every interleaving of the configured size. *)
EXTENDS Waits, TLC
CONSTANTS Writers, Values, MaxStores, Kind, Arg    \* Kind: "block", "spin" or "eq"
VARIABLES pc, todo, armed
vars == <<wvars, pc, todo, armed>>
X == CHOOSE x \in Locs : TRUE
Cur == hist[X][Len(hist[X])]
Init == WInit /\ pc = [p \in Waiters \cup Writers |-> IF p \in Waiters THEN "idle" ELSE "store"]
        /\ todo = [p \in Writers |-> MaxStores] /\ armed = [p \in Waiters |-> FALSE]
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Same == UNCHANGED <<todo, armed>>
Store(p) == /\ pc[p] = "store" /\ todo[p] > 0 /\ \E v \in Values : Set(X, v)
            /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ Goto(p, "wake")
            /\ armed' = [w \in Waiters |-> FALSE]                  \* a store triggers armed monitors
            /\ TRUE
WakeAll(p) == /\ pc[p] = "wake" /\ Wake(X) /\ todo' = todo /\ armed' = armed
              /\ pc' = [q \in DOMAIN pc |-> IF q = p THEN "store" ELSE IF pc[q] = "blocked" THEN "load" ELSE pc[q]]
Begin(w) == pc[w] = "idle" /\ Wait(w, Kind, X, Arg) /\ Goto(w, "load") /\ Same
\* an acquire load of the current value (stale values only delay)
Load(w) == /\ pc[w] = "load" /\ IF Satisfies(Kind, Arg, Cur) THEN Ret(w, Cur) /\ Goto(w, "done") /\ Same
                                ELSE UNCHANGED wvars /\ Goto(w, IF Kind = "block" THEN "sys" ELSE "arm") /\ Same
Sys(w) == /\ pc[w] = "sys" /\ UNCHANGED wvars /\ Same /\ (Goto(w, IF Cur = Arg THEN "blocked" ELSE "load") \/ Goto(w, "load"))
Spurious(w) == pc[w] \in {"blocked", "sleep"} /\ UNCHANGED wvars /\ Goto(w, "load") /\ Same
Arm(w) == pc[w] = "arm" /\ armed' = [armed EXCEPT ![w] = TRUE] /\ Goto(w, "recheck") /\ UNCHANGED <<wvars, todo>>
Recheck(w) == /\ pc[w] = "recheck" /\ IF Satisfies(Kind, Arg, Cur) THEN Ret(w, Cur) /\ Goto(w, "done") /\ Same
                                      ELSE UNCHANGED wvars /\ Goto(w, "sleep") /\ Same
WakeMon(w) == pc[w] = "sleep" /\ ~ armed[w] /\ UNCHANGED wvars /\ Goto(w, "load") /\ Same
WStep(w) == Begin(w) \/ Load(w) \/ Sys(w) \/ Arm(w) \/ Recheck(w) \/ WakeMon(w)
Next == (\E w \in Waiters : WStep(w) \/ Spurious(w)) \/ (\E p \in Writers : Store(p) \/ WakeAll(p))
Spec == Init /\ [][Next]_vars /\ \A w \in Waiters : WF_vars(WStep(w)) /\ \A p \in Writers : WF_vars(WakeAll(p))
\* A wait that is owed its return is never left sleeping with nobody to wake it.
NoLost == \A w \in Waiters : Owed(w) => ~ (pc[w] = "blocked") /\ (pc[w] = "sleep" => ~ armed[w])
Returned == \A w \in Waiters : pc[w] = "done" => pend[w].kind = "none"
AllStored == \A p \in Writers : pc[p] = "store"
Live == \A w \in Waiters : (<>[](AllStored /\ Owed(w))) => <>(pc[w] = "done")
=============================================================================
