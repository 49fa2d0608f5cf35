------------------------------ MODULE Dispatch ------------------------------
(* P06.  Targets are bit indices; a smaller index is a better target.  D: what the CPU offers,
   Base: the library's baseline target. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES disabled, forced
dvars == <<disabled, forced>>
Members(s) == {s[i] : i \in DOMAIN s}
Best(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
Worst(Q) == CHOOSE x \in Q : \A y \in Q : x >= y
Init == disabled = {} /\ forced = {}
Disable(Q) == disabled' = Q /\ UNCHANGED forced
Force(Q) == forced' = Q /\ UNCHANGED disabled
Supported(D, Base) == LET s == (IF forced = {} THEN D ELSE forced) \ disabled IN IF s = {} THEN {Base} ELSE s
\* A call site generated for targets T.  If none of them may run, its baseline does.
Runs(D, Base, T) == LET s == Supported(D, Base) \cap T IN IF s = {} THEN Worst(T) ELSE Best(s)
=============================================================================
