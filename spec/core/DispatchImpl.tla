---------------------------- MODULE DispatchImpl ----------------------------
(* The implementation: one global mask of chosen targets, "uninitialised" until the first call after
   a change of settings; settings change while no call is running, calls race with each other. *)
EXTENDS Dispatch, TLC
CONSTANTS D, Base, Sites, Threads   \* Sites: set of target sets
VARIABLES mask,     \* "uninit" or set of targets
          pc, site, found, result
ivars == <<disabled, forced, mask, pc, site, found, result>>
U == {-1}           \* uninitialised
All == {1, 2, 3}
IInit == Init /\ mask = U /\ pc = [t \in Threads |-> "idle"] /\ site = [t \in Threads |-> {}]
         /\ found = [t \in Threads |-> {}] /\ result = [t \in Threads |-> 0]
Idle == \A t \in Threads : pc[t] = "idle"
Keep == UNCHANGED <<pc, site, found, result>>
SetDisabled == Idle /\ \E q \in SUBSET All : Disable(q) /\ mask' = U /\ Keep
SetForced == Idle /\ \E q \in SUBSET All : Force(q) /\ mask' = U /\ Keep
Reset == Idle /\ mask' = U /\ Keep /\ UNCHANGED dvars
\* SupportedTargets(): without a mock it also updates the mask with its result.
Query == Idle /\ mask' = (IF forced = {} THEN Supported(D, Base) ELSE mask) /\ Keep /\ UNCHANGED dvars
Index(m, T) == LET s == m \cap T IN IF s = {} THEN Worst(T) ELSE Best(s)
Start(t) == /\ pc[t] = "idle" /\ \E T \in Sites : site' = [site EXCEPT ![t] = T]
            /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<disabled, forced, mask, found, result>>
Load(t) == /\ pc[t] = "load"
           /\ IF mask = U THEN pc' = [pc EXCEPT ![t] = "detect"] /\ UNCHANGED result
              ELSE pc' = [pc EXCEPT ![t] = "done"] /\ result' = [result EXCEPT ![t] = Index(mask, site[t])]
           /\ UNCHANGED <<disabled, forced, mask, site, found>>
Detect(t) == /\ pc[t] = "detect" /\ found' = [found EXCEPT ![t] = Supported(D, Base)]
             /\ mask' = (IF forced = {} THEN Supported(D, Base) ELSE mask)
             /\ pc' = [pc EXCEPT ![t] = "update"] /\ UNCHANGED <<disabled, forced, site, result>>
Update(t) == /\ pc[t] = "update" /\ mask' = found[t] /\ pc' = [pc EXCEPT ![t] = "index"]
             /\ UNCHANGED <<disabled, forced, site, found, result>>
PickIt(t) == /\ pc[t] = "index" /\ result' = [result EXCEPT ![t] = Index(mask, site[t])] /\ pc' = [pc EXCEPT ![t] = "done"]
             /\ UNCHANGED <<disabled, forced, mask, site, found>>
Return(t) == pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<disabled, forced, mask, site, found, result>>
INext == SetDisabled \/ SetForced \/ Reset \/ Query \/ \E t \in Threads : Start(t) \/ Load(t) \/ Detect(t) \/ Update(t) \/ PickIt(t) \/ Return(t)
ISpec == IInit /\ [][INext]_ivars
Correct == \A t \in Threads : pc[t] = "done" => result[t] = Runs(D, Base, site[t])
=============================================================================
