--------------------------- MODULE ArchDispatch ----------------------------
(* Run-time target detection and dynamic dispatch on every architecture      *)
(* other than x86 (whose detection is X86Targets).  A machine is a set of    *)
(* capabilities reported by the operating system and a vector length; a      *)
(* program is a translation unit compiled for the targets that TargetSelect  *)
(* determines; a history disables and forces targets, queries the supported  *)
(* ones, and calls a dispatched function.                                    *)
EXTENDS TargetSelect

\* What the machine must offer for a target (besides a vector length).
Needs(c, t) ==
  CASE t = "NEON_WITHOUT_AES" -> IF c.arch = "v7" THEN {"NEON", "VFPv4"} ELSE {}
    [] t = "NEON" -> IF c.os = "apple" THEN {"hw.optional.arm.FEAT_AES"} ELSE {"AES"}
    [] t = "NEON_BF16" -> IF c.os = "apple"
         THEN {"hw.optional.arm.FEAT_AES", "hw.optional.AdvSIMD_HPFPCvt", "hw.optional.arm.FEAT_DotProd", "hw.optional.arm.FEAT_BF16"}
         ELSE {"AES", "FP16", "DOT", "BF16"}
    [] t \in {"SVE", "SVE_256"} -> {"SVE"}
    [] t \in {"SVE2", "SVE2_128"} -> {"SVE2", "SVEAES"}
    [] t = "PPC8" -> {"ALTIVEC", "VSX", "ARCH207"} \cup (IF U(c, "HWY_DISABLE_PPC8_CRYPTO") THEN {} ELSE {"CRYPTO"})
    [] t = "PPC9" -> {"ALTIVEC", "VSX", "ARCH207", "ARCH300"} \cup (IF U(c, "HWY_DISABLE_PPC8_CRYPTO") THEN {} ELSE {"CRYPTO"})
    [] t = "PPC10" -> {"ALTIVEC", "VSX", "ARCH207", "ARCH300", "ARCH31"} \cup (IF U(c, "HWY_DISABLE_PPC8_CRYPTO") THEN {} ELSE {"CRYPTO"})
    [] t = "Z14" -> {"VX", "VXE"}
    [] t = "Z15" -> {"VX", "VXE", "EXT2"}
    [] t = "RVV" -> {"V"}
    [] t = "LSX" -> {"LSX"}
    [] t = "LASX" -> {"LASX"}
    [] OTHER -> {"never"}
LenOk(t, m) == CASE t = "SVE_256" -> m.len = 32 [] t = "SVE2_128" -> m.len = 16 [] t = "RVV" -> m.len >= 16 /\ ~m.vill [] OTHER -> TRUE
\* AArch32 has no AES; Apple offers no SVE; the length-specific SVE targets only matter if some SVE target was generated.
Possible(c, t, targets) ==
  CASE c.arch = "v7" -> t = "NEON_WITHOUT_AES"
    [] c.arch = "a64" -> /\ (c.os = "apple") => t \in AllNeon
                         /\ (t \in {"SVE_256", "SVE2_128"}) => (targets \cap (Sve1 \cup Sve2) # {})
    [] OTHER -> TRUE
Detect(c, m, targets) ==
  {"SCALAR", "EMU128"} \cup
  (IF ~RuntimeDispatch(c) \/ c.arch = "wasm" \/ c.arch \in {"none", "armold"} THEN EnabledBaseline(c)
   ELSE {t \in ArchTargets(c) \ {"SCALAR", "EMU128"} : Needs(c, t) \subseteq m.caps /\ LenOk(t, m) /\ Possible(c, t, targets)})

\* s: machine, disabled and forced targets.
Supported(c, r, s) == LET a == (IF s.forced # {} THEN s.forced ELSE Detect(c, s.m, r.targets)) \ s.disabled IN IF a = {} THEN {r.static} ELSE a
FallbackOf(r) == IF "EMU128" \in r.targets THEN "EMU128" ELSE IF "SCALAR" \in r.targets THEN "SCALAR" ELSE r.static
Runs(c, r, s) == LET a == (Supported(c, r, s) \cap r.targets) \ {"EMU128", "SCALAR"} IN IF a = {} THEN FallbackOf(r) ELSE BestOf(a)

\* ------------------------------------------------ properties of each target
MaxBytes(t) == CASE t \in {"SVE", "SVE2"} -> 256 [] t \in {"SVE_256", "LASX", "WASM_EMU256", "AVX2", "AVX10_2"} -> 32
                 [] t = "RVV" -> 65536 [] t = "SCALAR" -> 8
                 [] t \in AtLeast("AVX3") -> 64 [] OTHER -> 16
Scalable(t) == t \in {"SVE", "SVE2", "RVV"}
Lanes(t, size) == CASE t = "SCALAR" -> 1 [] t = "RVV" -> 8192 \div size [] OTHER -> MaxBytes(t) \div size
Fma(t) == t \notin {"SSE2", "SSSE3", "SSE4", "WASM", "WASM_EMU256", "EMU128", "SCALAR"}
=============================================================================
