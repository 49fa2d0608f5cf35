----------------------------- MODULE X86Targets -----------------------------
(* P07.  Which targets a processor with features F, register state OS enabled by the operating system
   (bits of XCR0), AVX10 version Ver (with 512-bit vectors: W512) offers.  Targets are bit indices. *)
EXTENDS Integers, Sequences, FiniteSets
SSE2f == {"SSE", "SSE2"}
SSSE3f == SSE2f \cup {"SSE3", "SSSE3"}
SSE4f == SSSE3f \cup {"SSE4.1", "SSE4.2", "PCLMULQDQ", "AES"}
AVX2f == SSE4f \cup {"AVX", "AVX2", "LZCNT", "BMI1", "BMI2", "FMA", "F16C"}
AVX3f == AVX2f \cup {"AVX512F", "AVX512VL", "AVX512DQ", "AVX512BW", "AVX512CD"}
DLf == AVX3f \cup {"AVX512_VNNI", "VPCLMULQDQ", "AVX512_VBMI", "AVX512_VBMI2", "VAES", "AVX512_VPOPCNTDQ", "AVX512_BITALG", "GFNI"}
ZEN4f == DLf \cup {"AVX512_BF16"}
SPRf == ZEN4f \cup {"AVX512_FP16"}
AVX10f == AVX2f \cup {"AVX10", "APX", "VPCLMULQDQ", "VAES", "GFNI"}

YmmOn(F, OS) == {"XSAVE", "OSXSAVE"} \subseteq F /\ {1, 2} \subseteq OS
ZmmOn(F, OS) == YmmOn(F, OS) /\ {5, 6, 7} \subseteq OS
Avx10On(F, Ver, W512, k) == AVX10f \subseteq F /\ Ver >= k
If(c, t) == IF c THEN {t} ELSE {}
Offered(F, Amd, OS, Ver, W512) ==
  LET y == YmmOn(F, OS)  z == ZmmOn(F, OS)
      v512 == Avx10On(F, Ver, W512, 1) /\ W512
      dl == z /\ (DLf \subseteq F \/ v512)
  IN {61, 62, 14}                                            \* EMU128, SCALAR and (x86-64) SSE2: always
     \cup If(SSSE3f \subseteq F, 12) \cup If(SSE4f \subseteq F, 11)
     \cup If(y /\ AVX2f \subseteq F, 9)
     \cup If(z /\ (AVX3f \subseteq F \/ v512), 8)
     \cup If(dl, 7)
     \cup If(dl /\ ZEN4f \subseteq F /\ Amd, 6)
     \cup If(z /\ (SPRf \subseteq F \/ v512), 4)
     \cup If(z /\ Avx10On(F, Ver, W512, 2), 5)
     \cup If(z /\ Avx10On(F, Ver, W512, 2) /\ W512, 3)
=============================================================================
