---------------------------- MODULE MCX86Targets ----------------------------
(* Monotonicity of the requirement tables themselves, over feature groups. *)
EXTENDS X86Targets, TLC
Groups == {SSSE3f, SSE4f \ SSSE3f, AVX2f \ SSE4f, AVX3f \ AVX2f, {"VPCLMULQDQ", "VAES", "GFNI"},
           DLf \ (AVX3f \cup {"VPCLMULQDQ", "VAES", "GFNI"}), {"AVX512_BF16"}, {"AVX512_FP16"}, {"AVX10", "APX"}, {"XSAVE"}, {"OSXSAVE"}}
Os == {{1, 2}, {5, 6, 7}, {1}, {5}}
VARIABLES f, os, amd, ver, w
Init == f \in SUBSET Groups /\ os \in SUBSET Os /\ amd \in BOOLEAN /\ ver \in 0..2 /\ w \in BOOLEAN
Next == /\ \/ \E g \in f : f' = f \ {g} /\ os' = os
           \/ \E o \in os : os' = os \ {o} /\ f' = f
        /\ UNCHANGED <<amd, ver, w>>
Now == Offered(UNION f, amd, UNION os, ver, w)
Monotone == [][Offered(UNION f', amd', UNION os', ver', w') \subseteq Now]_<<f, os, amd, ver, w>>
\* A target with wider registers is only offered if every narrower one of its chain is usable too.
Chain == /\ (Now \cap {3, 4, 5, 6, 7, 8, 9} # {}) => YmmOn(UNION f, UNION os)
         /\ (Now \cap {3, 4, 5, 6, 7, 8} # {}) => ZmmOn(UNION f, UNION os)
Spec == Init /\ [][Next]_<<f, os, amd, ver, w>>
=============================================================================
