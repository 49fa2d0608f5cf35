--------------------------- MODULE TargetSelect ---------------------------
(* Which instruction-set targets a translation unit is compiled for, as a    *)
(* function of what the compiler predefines (architecture, compiler and      *)
(* version, OS, instruction-set macros) and of the user's configuration      *)
(* macros.  The stages are those documented in detect_targets.h and          *)
(* g3doc/quick_reference.md: broken and disabled targets are not enabled;    *)
(* baseline targets are those whose instructions the compiler may use        *)
(* unconditionally; the static target is the best enabled baseline target;   *)
(* attainable targets are those the compiler can generate at all; a policy   *)
(* selects the targets among them.                                           *)
EXTENDS Integers, Sequences, FiniteSets

\* Target -> bit number.  A lower bit is a better target.
Bit == [AVX10_2_512 |-> 3, AVX3_SPR |-> 4, AVX10_2 |-> 5, AVX3_ZEN4 |-> 6, AVX3_DL |-> 7, AVX3 |-> 8, AVX2 |-> 9,
        SSE4 |-> 11, SSSE3 |-> 12, SSE2 |-> 14,
        SVE2_128 |-> 18, SVE_256 |-> 19, SVE2 |-> 23, SVE |-> 24, NEON_BF16 |-> 26, NEON |-> 28, NEON_WITHOUT_AES |-> 29,
        RVV |-> 37, LASX |-> 40, LSX |-> 41, PPC10 |-> 47, PPC9 |-> 48, PPC8 |-> 49, Z15 |-> 50, Z14 |-> 51,
        WASM_EMU256 |-> 58, WASM |-> 59, EMU128 |-> 61, SCALAR |-> 62]
Targets == DOMAIN Bit
Better(a, b) == Bit[a] < Bit[b]
BestOf(S) == CHOOSE t \in S : \A u \in S : Bit[t] <= Bit[u]
AtLeast(t) == {u \in Targets : Bit[u] <= Bit[t]}          \* t and everything better

X86 == {t \in Targets : Bit[t] <= 14}
Avx3Up == AtLeast("AVX3")
AllNeon == {"NEON_WITHOUT_AES", "NEON", "NEON_BF16"}
Sve1 == {"SVE", "SVE_256"}
Sve2 == {"SVE2", "SVE2_128"}
AllPpc == {"PPC8", "PPC9", "PPC10"}
AllZ == {"Z14", "Z15"}
AllLoong == {"LSX", "LASX"}

\* -------------------------------------------------------------- the compiler
IsX86(c) == c.arch \in {"x86_32", "x86_64"}
IsArm(c) == c.arch \in {"a64", "v7"}
IsPpc(c) == c.arch \in {"ppc64", "ppc32"}
IsLoong(c) == c.arch \in {"loong64", "loong32"}
ArchTargets(c) == (CASE IsX86(c) -> X86 [] IsArm(c) -> AllNeon \cup Sve1 \cup Sve2 [] IsPpc(c) -> AllPpc
                     [] c.arch = "s390x" -> AllZ [] c.arch = "riscv" -> {"RVV"} [] IsLoong(c) -> AllLoong
                     [] c.arch = "wasm" -> {"WASM", "WASM_EMU256"} [] OTHER -> {}) \cup {"EMU128", "SCALAR"}
Msvc(c) == c.comp = "msvc"
Gcc(c) == c.comp = "gcc"                       \* the actual GCC, not a compatible compiler
Clang(c) == c.comp \in {"clang", "clangcl", "icx"}
Icc(c) == c.comp = "icc"
GnuExt(c) == c.comp \in {"gcc", "clang", "icc", "icx"}
GccBelow(c, v) == Gcc(c) /\ c.ver < v
GccFrom(c, v) == Gcc(c) /\ c.ver >= v
ClangBelow(c, v) == Clang(c) /\ c.ver < v
ClangFrom(c, v) == Clang(c) /\ c.ver >= v
IccBelow(c, v) == Icc(c) /\ c.ver < v
F(c, x) == x \in c.feat                        \* predefined instruction-set macro
U(c, x) == x \in c.user                        \* configuration macro

\* ------------------------------------------------------------------- broken
BrokenDefault(c) ==
  UNION {
    IF IsX86(c) /\ ClangBelow(c, 700) THEN AtLeast("SSE4") ELSE {},
    IF c.arch = "x86_32" THEN (IF GccFrom(c, 1300) THEN Avx3Up ELSE AtLeast("AVX2")) ELSE {},
    IF Msvc(c) THEN Avx3Up ELSE {},
    IF GccBelow(c, 801) \/ IccBelow(c, 2021) THEN {"AVX3_DL", "AVX3_ZEN4"} ELSE {},
    IF ClangBelow(c, 1400) \/ GccBelow(c, 1200) \/ IccBelow(c, 2021) THEN {"AVX3_SPR"} ELSE {},
    IF c.arch = "v7" /\ c.big THEN AllNeon ELSE {},
    \* Armv7-A needs VFPv4 (which implies half-precision and FMA).
    IF c.arch = "v7" /\ F(c, "PROFILE_A") /\ ~F(c, "__ARM_VFPV4__") /\ ~(F(c, "FP_HALF") /\ F(c, "__ARM_FEATURE_FMA"))
      THEN AllNeon ELSE {},
    IF ClangBelow(c, 1700) \/ GccBelow(c, 1302) THEN {"NEON_BF16"} ELSE {},
    IF ClangBelow(c, 2000) \/ GccBelow(c, 1000) \/ c.os = "apple" THEN Sve1 \cup Sve2 ELSE {},
    IF GccBelow(c, 1100) THEN {"PPC10"} ELSE {},
    \* Big-endian PPC10 code generation bugs: GCC 12.0-12.3 and 13.0-13.1, Clang up to 16.0.0.
    IF IsPpc(c) /\ c.big /\ (\/ Gcc(c) /\ ((c.ver >= 1200 /\ c.ver <= 1203) \/ (c.ver >= 1300 /\ c.ver <= 1301))
                             \/ Clang(c) /\ (c.ver * 100) + c.patch < 160001) THEN {"PPC10"} ELSE {},
    IF c.arch = "ppc32" THEN AllPpc ELSE {},
    IF c.arch = "riscv" /\ (ClangBelow(c, 1600) \/ GccBelow(c, 1300)) THEN {"RVV"} ELSE {},
    IF IsLoong(c) /\ (ClangBelow(c, 1800) \/ GccBelow(c, 1400)) THEN AllLoong ELSE {},
    IF c.arch = "s390x" /\ ClangBelow(c, 1900) THEN AllZ ELSE {},
    IF c.arch = "s390x" /\ GccBelow(c, 900) THEN {"Z15"} ELSE {}
  }
Broken(c) == IF c.obroken THEN {} ELSE BrokenDefault(c)
Enabled(c, S) == S \ (c.disabled \cup Broken(c))
\* The emulated 128-bit target is affected by a GCC bug before 14 and needs the C++ library.
EmuBroken(c) == IF U(c, "EMU_OK") THEN FALSE ELSE GccBelow(c, 1400) \/ U(c, "HWY_NO_LIBCXX")

\* ----------------------------------------------------------------- baseline
Fallback(c) == IF U(c, "HWY_COMPILE_ONLY_SCALAR") \/ EmuBroken(c) THEN "SCALAR" ELSE "EMU128"
All(c, S) == \A x \in S : F(c, x)

\* x86.  MSVC predefines few macros: x64 implies SSE2, AVX implies SSSE3 and
\* SSE4, AVX2 implies BMI2, FMA and F16C.
HasSse2(c) == IF Msvc(c) THEN (c.arch = "x86_64") \/ F(c, "IX86_SSE2") ELSE F(c, "__SSE2__")
HasSsse3(c) == IF Msvc(c) THEN F(c, "__AVX__") ELSE F(c, "__SSSE3__")
HasSse4(c) == IF Msvc(c) THEN F(c, "__AVX__")
              ELSE All(c, {"__SSE4_1__", "__SSE4_2__"}) /\ (U(c, "HWY_DISABLE_PCLMUL_AES") \/ All(c, {"__PCLMUL__", "__AES__"}))
Avx2Extra(c) == Msvc(c) \/ ((U(c, "HWY_DISABLE_BMI2_FMA") \/ All(c, {"__BMI2__", "__FMA__"})) /\ (U(c, "HWY_DISABLE_F16C") \/ F(c, "__F16C__")))
BSse4(c) == U(c, "HWY_WANT_SSE4") \/ HasSse4(c)
BAvx2(c) == BSse4(c) /\ F(c, "__AVX2__") /\ Avx2Extra(c)
\* Compilers that can restrict AVX-512 to 256-bit vectors say whether 512-bit ones are allowed.
Evex512(c) == (GccFrom(c, 1400) \/ ClangFrom(c, 1800)) => F(c, "__EVEX512__")
BAvx3(c) == BAvx2(c) /\ All(c, {"__AVX512F__", "__AVX512BW__", "__AVX512CD__", "__AVX512DQ__", "__AVX512VL__"})
            /\ (Evex512(c) \/ "evex512" \in c.dev)
BAvx3Dl(c) == BAvx3(c) /\ All(c, {"__AVX512VNNI__", "__VAES__", "__VPCLMULQDQ__", "__AVX512VBMI__", "__AVX512VBMI2__",
                                  "__AVX512VPOPCNTDQ__", "__AVX512BITALG__", "__GFNI__"})
BSpr(c) == BAvx3Dl(c) /\ All(c, {"__AVX512BF16__", "__AVX512FP16__"})
X86Base(c) == {t \in X86 :
  CASE t = "SSE2" -> U(c, "HWY_WANT_SSE2") \/ HasSse2(c)
    [] t = "SSSE3" -> U(c, "HWY_WANT_SSSE3") \/ HasSsse3(c)
    [] t = "SSE4" -> BSse4(c)
    [] t = "AVX2" -> BAvx2(c)
    [] t = "AVX3" -> BAvx3(c)
    [] t = "AVX3_DL" -> BAvx3Dl(c)
    [] t = "AVX3_ZEN4" -> BAvx3Dl(c) /\ U(c, "HWY_WANT_AVX3_ZEN4")     \* only on request
    [] t = "AVX10_2" -> BAvx2(c) /\ F(c, "__AVX10_2__")
    [] t = "AVX3_SPR" -> BSpr(c)
    [] t = "AVX10_2_512" -> BSpr(c) /\ F(c, "__AVX10_2_512__")}

NeonMacros(c) == F(c, "__ARM_NEON") \/ F(c, "__ARM_NEON__")
BNeon(c) == IF ~IsArm(c) \/ ~NeonMacros(c) THEN {}
            ELSE IF ~F(c, "__ARM_FEATURE_AES") THEN {"NEON_WITHOUT_AES"}
            ELSE IF All(c, {"__ARM_FEATURE_FP16_VECTOR_ARITHMETIC", "__ARM_FEATURE_DOTPROD", "__ARM_FEATURE_BF16_VECTOR_ARITHMETIC"})
                 THEN AllNeon ELSE {"NEON_WITHOUT_AES", "NEON"}
SveCompiler(c) == ClangFrom(c, 900) \/ GccFrom(c, 800)
Sve2Compiler(c) == ClangFrom(c, 1400) \/ GccFrom(c, 1200)
\* The specialised targets are only assumed if the user fixed the vector length.
BSve(c) == IF IsArm(c) /\ F(c, "__ARM_FEATURE_SVE") /\ SveCompiler(c) THEN {IF c.num = 256 THEN "SVE_256" ELSE "SVE"} ELSE {}
BSve2(c) == IF IsArm(c) /\ F(c, "__ARM_FEATURE_SVE2") /\ Sve2Compiler(c) THEN {IF c.num = 128 THEN "SVE2_128" ELSE "SVE2"} ELSE {}

BPpc8(c) == IsPpc(c) /\ GnuExt(c) /\ All(c, {"__ALTIVEC__", "__VSX__", "__POWER8_VECTOR__"}) /\ (F(c, "__CRYPTO__") \/ U(c, "HWY_DISABLE_PPC8_CRYPTO"))
BPpc9(c) == BPpc8(c) /\ F(c, "__POWER9_VECTOR__")
BPpc10(c) == BPpc9(c) /\ (F(c, "_ARCH_PWR10") \/ F(c, "__POWER10_VECTOR__"))
BZ14(c) == c.arch = "s390x" /\ F(c, "__VEC__") /\ c.num >= 12
Opt(b, t) == IF b THEN {t} ELSE {}

BaselineDefault(c) ==
  UNION {
    {Fallback(c)},
    IF IsX86(c) THEN X86Base(c) ELSE {},
    BNeon(c), BSve(c), BSve2(c),
    Opt(BPpc8(c), "PPC8"), Opt(BPpc9(c), "PPC9"), Opt(BPpc10(c), "PPC10"),
    Opt(BZ14(c), "Z14"), Opt(BZ14(c) /\ c.num >= 13, "Z15"),
    Opt(c.arch = "riscv" /\ c.num >= 11000, "RVV"),
    IF IsLoong(c) /\ F(c, "__loongarch_sx") THEN {"LSX"} \cup Opt(F(c, "__loongarch_asx"), "LASX") ELSE {},
    IF c.arch = "wasm" /\ F(c, "__wasm_simd128__") THEN {IF U(c, "HWY_WANT_WASM2") THEN "WASM_EMU256" ELSE "WASM"} ELSE {}
  }
Baseline(c) == IF c.obase # {} THEN c.obase ELSE BaselineDefault(c)
EnabledBaseline(c) == Enabled(c, Baseline(c))

\* --------------------------------------------------------------- attainable
RuntimeDispatch(c) ==
  IF U(c, "NO_RUNTIME") THEN FALSE ELSE
  \/ U(c, "YES_RUNTIME")
  \/ IsX86(c)
  \/ c.arch = "a64" /\ c.os = "apple" /\ (Gcc(c) \/ ClangFrom(c, 1700))
  \/ (IsArm(c) \/ IsPpc(c) \/ c.arch = "s390x") /\ c.os = "linux" /\ (Gcc(c) \/ ClangFrom(c, 1700)) /\ c.auxv
StaticBase(c) == BestOf(EnabledBaseline(c))
AttainableArch(c) ==
  CASE IsX86(c) -> (IF Msvc(c) /\ U(c, "HWY_SLOW_MSVC") THEN {"AVX2"}
                    ELSE {"SSE2", "SSSE3", "SSE4", "AVX2", "AVX3", "AVX3_DL", "AVX3_ZEN4", "AVX3_SPR"}) \cup {StaticBase(c)}
    [] c.arch = "a64" -> (IF RuntimeDispatch(c) THEN AllNeon ELSE BNeon(c))
         \cup (IF SveCompiler(c) /\ (RuntimeDispatch(c) \/ EnabledBaseline(c) \cap Sve1 # {}) THEN Sve1 ELSE {})
         \cup (IF Sve2Compiler(c) /\ (RuntimeDispatch(c) \/ EnabledBaseline(c) \cap Sve2 # {}) THEN Sve2 ELSE {})
    [] c.arch = "v7" -> BNeon(c)
    [] IsPpc(c) -> IF F(c, "__ALTIVEC__") /\ (Clang(c) => BPpc8(c)) THEN AllPpc ELSE {}
    [] c.arch = "s390x" -> IF BZ14(c) THEN AllZ ELSE {}
    [] c.arch = "riscv" -> IF RuntimeDispatch(c) THEN {"RVV"} ELSE Opt(c.num >= 11000, "RVV")
    [] OTHER -> EnabledBaseline(c)
Attainable(c) == IF IsLoong(c) THEN Enabled(c, {Fallback(c)}) \cup EnabledBaseline(c)
                 ELSE IF IsX86(c) \/ IsArm(c) \/ IsPpc(c) \/ c.arch \in {"s390x", "riscv"}
                      THEN Enabled(c, {Fallback(c)} \cup AttainableArch(c)) ELSE EnabledBaseline(c)

\* ------------------------------------------------------------------- policy
OnlyScalar(c) == U(c, "HWY_COMPILE_ONLY_SCALAR")
\* LoongArch vector targets are not yet supported: only emulation.
ForceEmu(c) == IsLoong(c) /\ ~OnlyScalar(c) /\ ~U(c, "HWY_COMPILE_ONLY_EMU128")
OnlyEmu(c) == U(c, "HWY_COMPILE_ONLY_EMU128") \/ ForceEmu(c)
OnlyStatic(c) == U(c, "HWY_COMPILE_ONLY_STATIC") /\ ~ForceEmu(c)
Count(S) == Cardinality({x \in S : x})
OnlyCount(c) == (IF OnlyScalar(c) THEN 1 ELSE 0) + (IF OnlyEmu(c) THEN 1 ELSE 0) + (IF OnlyStatic(c) THEN 1 ELSE 0)
\* On POWER, targets older than the flags ask for do not compile.
SkipNonBest(c) == \/ U(c, "HWY_SKIP_NON_BEST_BASELINE")
                  \/ IsPpc(c) /\ F(c, "__ALTIVEC__") /\ (Clang(c) => BPpc8(c)) /\ BPpc9(c)
Result(c) ==
  IF EnabledBaseline(c) = {} \/ OnlyCount(c) > 1 THEN [err |-> TRUE, static |-> "", targets |-> {}]
  ELSE IF OnlyEmu(c) \/ OnlyScalar(c)
  THEN LET t == IF OnlyEmu(c) /\ ~EmuBroken(c) THEN "EMU128" ELSE "SCALAR" IN [err |-> FALSE, static |-> t, targets |-> {t}]
  ELSE LET s == StaticBase(c)
           all == U(c, "HWY_COMPILE_ALL_ATTAINABLE") \/ U(c, "HWY_IS_TEST")
           ts == IF OnlyStatic(c) THEN {s}
                 ELSE IF all /\ ~SkipNonBest(c) THEN Attainable(c)
                 ELSE Attainable(c) \cap AtLeast(s)
       IN [err |-> s \notin ts, static |-> s, targets |-> ts]

\* ------------------------------------------- what a user relies on (checked)
Only(c) == OnlyEmu(c) \/ OnlyScalar(c)
Good(c) ==
  LET r == Result(c) IN
  /\ ~r.err => /\ r.static \in r.targets
               /\ r.targets \subseteq ArchTargets(c)
               /\ ~Only(c) => /\ r.targets \cap (c.disabled \cup Broken(c)) = {}
                              /\ r.static \in EnabledBaseline(c)
                              /\ \A t \in EnabledBaseline(c) : ~Better(t, r.static)
                              /\ ~OnlyStatic(c) => \A t \in Attainable(c) : Better(t, r.static) => t \in r.targets
               /\ OnlyStatic(c) => r.targets = {r.static}
  \* The configuration is only rejected for the documented reasons.
  /\ (r.err /\ c.obase = {}) => (OnlyCount(c) > 1 \/ Fallback(c) \in c.disabled)
=============================================================================
