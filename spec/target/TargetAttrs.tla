---------------------------- MODULE TargetAttrs ----------------------------
(* Per-target macros: namespace, vector size, capabilities, and the attributes with which the compiler may use instructions.
   Code compiled for a target runs whenever run-time detection reports the target, so every attribute may only permit
   instructions of features which detection requires (X86Targets, ArchDispatch) or which the baseline already has. *)
EXTENDS ArchDispatch, TLC, Json, IOUtils, SequencesExt
X == INSTANCE X86Targets
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* Features which run-time detection requires for a target under this configuration.
Minus(c, s) == s \ ((IF U(c, "HWY_DISABLE_PCLMUL_AES") THEN {"PCLMULQDQ", "AES"} ELSE {}) \cup (IF U(c, "HWY_DISABLE_BMI2_FMA") THEN {"BMI1", "BMI2", "FMA"} ELSE {})
                    \cup (IF U(c, "HWY_DISABLE_F16C") THEN {"F16C"} ELSE {}))
Zmm == {"EVEX512"}
Requires(c, t) ==
  CASE t = "SSE2" -> X!SSE2f [] t = "SSSE3" -> X!SSSE3f [] t = "SSE4" -> Minus(c, X!SSE4f) [] t = "AVX2" -> Minus(c, X!AVX2f)
    [] t = "AVX3" -> Minus(c, X!AVX3f) \cup Zmm [] t = "AVX3_DL" -> Minus(c, X!DLf) \cup Zmm [] t = "AVX3_ZEN4" -> Minus(c, X!ZEN4f) \cup Zmm
    [] t = "AVX3_SPR" -> Minus(c, X!SPRf) \cup Zmm
    [] t = "AVX10_2" -> Minus(c, X!SPRf) \cup X!AVX10f \cup {"AVX10.2"} [] t = "AVX10_2_512" -> Minus(c, X!SPRf) \cup X!AVX10f \cup {"AVX10.2", "AVX10.2-512"} \cup Zmm
    [] t \in {"EMU128", "SCALAR"} -> {}
    [] t = "WASM" -> {"SIMD128"} [] t = "WASM_EMU256" -> {"SIMD128"}
    [] OTHER -> Needs([c EXCEPT !.os = "linux"], t)
\* Instructions which an attribute lets the compiler use; attributes not listed here permit something unknown.
Same == {"sse2", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "fma", "f16c", "lzcnt", "avx512f", "avx512cd", "avx512vl", "avx512dq", "avx512bw", "vpclmulqdq", "vaes", "gfni"}
Upper == [x \in Same |-> CASE x = "sse2" -> "SSE2" [] x = "ssse3" -> "SSSE3" [] x = "sse4.1" -> "SSE4.1" [] x = "sse4.2" -> "SSE4.2" [] x = "avx" -> "AVX" [] x = "avx2" -> "AVX2"
    [] x = "fma" -> "FMA" [] x = "f16c" -> "F16C" [] x = "lzcnt" -> "LZCNT" [] x = "avx512f" -> "AVX512F" [] x = "avx512cd" -> "AVX512CD" [] x = "avx512vl" -> "AVX512VL"
    [] x = "avx512dq" -> "AVX512DQ" [] x = "avx512bw" -> "AVX512BW" [] x = "vpclmulqdq" -> "VPCLMULQDQ" [] x = "vaes" -> "VAES" [] x = "gfni" -> "GFNI"]
Permits(c, x) ==
  CASE x \in Same -> {Upper[x]}
    [] x = "pclmul" -> {"PCLMULQDQ"} [] x = "bmi" -> {"BMI1"} [] x = "bmi2" -> {"BMI2"}
    [] x = "aes" -> {"AES"}
    [] x = "crypto" -> IF c.arch \in {"ppc64", "ppc32"} THEN {"CRYPTO"} ELSE {"AES"}   \* Arm: also SHA, which no operation uses
    [] x = "avx512vbmi" -> {"AVX512_VBMI"} [] x = "avx512vbmi2" -> {"AVX512_VBMI2"} [] x = "avx512vnni" -> {"AVX512_VNNI"} [] x = "avx512bitalg" -> {"AVX512_BITALG"}
    [] x = "avx512vpopcntdq" -> {"AVX512_VPOPCNTDQ"} [] x = "avx512bf16" -> {"AVX512_BF16"} [] x = "avx512fp16" -> {"AVX512_FP16"}
    [] x = "evex512" -> {"EVEX512"} [] x \in {"no-evex512", "htm", ""} -> {} [] x = "avx10.2-256" -> {"AVX10.2"} [] x = "avx10.2-512" -> {"AVX10.2-512"}
    [] x = "altivec" -> {"ALTIVEC"} [] x = "vsx" -> {"VSX"} [] x = "power8-vector" -> {"ARCH207"} [] x = "power9-vector" -> {"ARCH300"}
    [] x \in {"power10-vector", "cpu=power10"} -> {"ARCH31"}
    [] x = "arch=z14" -> {"VX", "VXE"} [] x = "arch=z15" -> {"VX", "VXE", "EXT2"}
    [] x = "neon-vfpv4" -> {"NEON", "VFPv4"} [] x \in {"fp16", "fullfp16"} -> {"FP16"} [] x = "bf16" -> {"BF16"} [] x = "dotprod" -> {"DOT"}
    [] x = "armv8.4-a" -> IF c.os = "apple" THEN {"BF16"} ELSE {"unknown"}             \* all Apple processors with BF16 are newer
    [] x = "sve" -> {"SVE"} [] x = "sve2" -> {"SVE2"} [] x = "sve2-aes" -> {"SVEAES"}
    [] x = "simd128" -> {"SIMD128"} [] x \in {"Zvl128b", "Zve64d"} -> {"V"}
    [] OTHER -> {"unknown: " \o x}
Implied(t) == IF t \in {"SVE2", "SVE2_128"} THEN {"SVE"} ELSE {}        \* SVE2 implies SVE
AttrsOk(c, t, ts) == UNION {Permits(c, x) : x \in ts} \subseteq Requires(c, t) \cup Implied(t)
\* The targets whose operations need their attributes must have them, or code using them does not compile: not checked.
B(x) == IF x THEN 1 ELSE 0
MacrosOk(c, q) ==
  LET t == q.t IN
  /\ q.ns = "N_" \o t /\ q.max = MaxBytes(t)
  /\ q.scalable = B(Scalable(t))
  /\ (t = "NEON_BF16" => q.dot = 1)
  /\ (t \in {"SSE2", "SSSE3", "SSE4", "AVX2", "AVX3", "AVX3_DL"} \cup AllPpc \cup AllZ \cup {"WASM", "WASM_EMU256", "EMU128", "SCALAR", "RVV", "LSX", "LASX"} => q.dot = 0)
  /\ (t \in {"AVX3_ZEN4", "AVX3_SPR", "AVX10_2", "AVX10_2_512"} => (q.dot = 1) = ("avx512bf16" \in ToSet(q.attrs)))
  /\ (q.ge512 = 1 => q.max >= 64 /\ q.ge256 = 1) /\ (q.ge256 = 1 => q.max >= 32)
  /\ (t \in {"SSE2", "SSSE3", "SSE4", "AVX2", "AVX3", "AVX3_DL", "AVX3_ZEN4", "AVX3_SPR", "AVX10_2", "AVX10_2_512"} => q.ge256 = B(MaxBytes(t) >= 32) /\ q.ge512 = B(MaxBytes(t) >= 64) /\ q.fault = B(MaxBytes(t) = 16 \/ t = "AVX2"))
Conv(r) == [arch |-> r.arch, big |-> r.big, comp |-> r.comp, ver |-> r.ver, patch |-> r.patch, os |-> r.os, auxv |-> r.auxv,
            num |-> r.num, feat |-> ToSet(r.feat), user |-> ToSet(r.user), disabled |-> ToSet(r.disabled),
            obase |-> ToSet(r.obase), obroken |-> r.obroken, dev |-> {}]
TInit == i = 1
TNext == /\ i <= Len(Recs)
         /\ LET r == Recs[i] c == Conv(r) IN
            /\ \A q \in ToSet(r.macros) : ~AttrsOk(c, q.t, ToSet(q.attrs)) => PrintT("BAD " \o ToString(i) \o " attrs " \o q.t \o " " \o ToString(UNION {Permits(c, x) : x \in ToSet(q.attrs)} \ (Requires(c, q.t) \cup Implied(q.t))))
            /\ \A q \in ToSet(r.macros) : ~MacrosOk(c, q) => PrintT("BAD " \o ToString(i) \o " macros " \o q.t \o " {}")
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
