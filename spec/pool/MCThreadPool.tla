---- MODULE MCThreadPool ----
EXTENDS ThreadPool
I0 == <<"Block", "O">>
AllConfigs == {"Block", "Spin1", "Sep"} \X {"O", "C1", "C2", "C4", "G2", "G4"}
\* Covers every barrier transition for one wait kind and every wait transition for one barrier.
BlockConfigs == {"Block"} \X {"O", "C1", "C2", "G2"}
MixConfigs == {<<"Block","O">>, <<"Spin1","C1">>, <<"Sep","C2">>, <<"Sep","G2">>}
Em(n) == -n
DirDown == -1
Em0 == 0
CtrConfigs == {<<"Block","C2">>, <<"Sep","O">>}
Em3 == -3
Em5 == -5
Em6 == -6
Em7 == -7
Em8 == -8
AliasConfigs == {<<"Block","C2">>, <<"Block","O">>}
====
