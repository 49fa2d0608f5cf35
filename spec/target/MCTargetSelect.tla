-------------------------- MODULE MCTargetSelect ---------------------------
(* Exhaustive over a grid of x86-64, AArch64 and POWER compilations: the     *)
(* guarantees in Good, and that allowing the compiler more instructions      *)
(* never leads to a worse static target.                                     *)
EXTENDS TargetSelect
CONSTANT Deep
VARIABLES c, old
Dl == {"__AVX512VNNI__", "__VAES__", "__VPCLMULQDQ__", "__AVX512VBMI__", "__AVX512VBMI2__", "__AVX512VPOPCNTDQ__", "__AVX512BITALG__", "__GFNI__"}
Steps == [x86_64 |-> <<{"__SSE2__"}, {"__SSSE3__"}, {"__SSE4_1__", "__SSE4_2__"}, {"__PCLMUL__", "__AES__"}, {"__AVX__", "__AVX2__"}, {"__BMI2__", "__FMA__"}, {"__F16C__"},
                       {"__AVX512F__", "__AVX512BW__", "__AVX512DQ__", "__AVX512VL__", "__EVEX512__"}, {"__AVX512CD__"}, Dl, {"__AVX512BF16__", "__AVX512FP16__"}, {"__AVX10_2__"}, {"__AVX10_2_512__"}>>,
          a64 |-> <<{"__ARM_NEON"}, {"__ARM_FEATURE_AES"}, {"__ARM_FEATURE_FP16_VECTOR_ARITHMETIC"}, {"__ARM_FEATURE_DOTPROD"}, {"__ARM_FEATURE_BF16_VECTOR_ARITHMETIC"}, {"__ARM_FEATURE_SVE"}, {"__ARM_FEATURE_SVE2"}>>,
          ppc64 |-> <<{"__ALTIVEC__"}, {"__VSX__"}, {"__POWER8_VECTOR__"}, {"__CRYPTO__"}, {"__POWER9_VECTOR__"}, {"_ARCH_PWR10"}>>]
Compilers == {<<"gcc", 700>>, <<"gcc", 1303>>, <<"gcc", 1500>>, <<"clang", 600>>, <<"clang", 1600>>, <<"clang", 2000>>, <<"msvc", 1930>>}
Users == {{}, {"HWY_IS_TEST"}, {"HWY_COMPILE_ONLY_SCALAR"}, {"HWY_COMPILE_ONLY_EMU128"}, {"HWY_COMPILE_ONLY_STATIC"}, {"HWY_COMPILE_ONLY_STATIC", "HWY_IS_TEST"},
          {"HWY_SKIP_NON_BEST_BASELINE", "HWY_IS_TEST"}, {"HWY_WANT_SSE4"}, {"HWY_WANT_AVX3_ZEN4"}, {"NO_RUNTIME"}, {"HWY_COMPILE_ONLY_SCALAR", "HWY_COMPILE_ONLY_STATIC"}}
Disabled == {{}, {"AVX2"}, {"SSE4", "AVX3", "AVX3_DL"}, {"SCALAR"}, {"EMU128", "SCALAR"}, {"NEON", "SVE2"}, {"SVE", "SVE_256", "PPC9"}}
Base == [big : {FALSE, TRUE}, os : {"linux", "apple"}, auxv : {TRUE}, patch : {0}, num : {0, 128, 256}, obase : {{}}, obroken : {FALSE, TRUE}, dev : {{}},
         arch : DOMAIN Steps, feat : {{}}, user : Users, disabled : Disabled]
Mk(b, k) == [big |-> b.big, os |-> b.os, auxv |-> b.auxv, patch |-> b.patch, num |-> b.num, obase |-> b.obase, obroken |-> b.obroken, dev |-> b.dev,
             arch |-> b.arch, feat |-> b.feat, user |-> b.user, disabled |-> b.disabled, comp |-> k[1], ver |-> k[2]]
Init == /\ \E b \in Base, k \in Compilers : /\ b.arch # "ppc64" => ~b.big
                                            /\ b.arch # "a64" => b.num = 0 /\ b.os = "linux"
                                            /\ Deep \/ (~b.big /\ ~b.obroken /\ b.os = "linux" /\ k # <<"gcc", 700>> /\ k # <<"clang", 600>> /\ b.num # 128)
                                            /\ c = Mk(b, k)
        /\ old = c
Next == \E i \in DOMAIN Steps[c.arch] :
          /\ ~(Steps[c.arch][i] \subseteq c.feat)
          /\ (c.arch # "a64" => \A j \in 1 .. i - 1 : Steps[c.arch][j] \subseteq c.feat)
          /\ old' = c
          /\ c' = [c EXCEPT !.feat = @ \cup Steps[c.arch][i]]
Spec == Init /\ [][Next]_<<c, old>>
Ok == Good(c)
\* Allowing the compiler more instructions never makes the static target worse.
Monotone == LET r == Result(c) o == Result(old) IN (~r.err /\ ~o.err) => ~Better(o.static, r.static)
=============================================================================
