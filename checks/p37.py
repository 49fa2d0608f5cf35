import simd_common as sc
EMU = ["-DHWY_HAVE_SCALAR_F16_TYPE=0", "-DHWY_HAVE_SCALAR_F16_OPERATORS=0", "-DHWY_HAVE_SCALAR_BF16_TYPE=0", "-DHWY_HAVE_SCALAR_BF16_OPERATORS=0"]
def check(ctx):
    lines = sc.observe(ctx, "scalar_float.cc", want=["SSE2", "AVX2", "AVX3_SPR"], opt="-O1")
    # The versions for compilers without native half-precision types
    lines2 = sc.observe(ctx, "scalar_float.cc", want=["SSE2"], opt="-O1", extra_flags=EMU)
    have = {l for l, _ in lines}
    sc.validate(ctx, "P37", lines + [x for x in lines2 if x[0] not in have], "ScalarFloatTrace")
    ctx.cov["configurations"] = "native and emulated half-precision types"
    ctx.assumptions += ["A not-a-number result may have any sign and payload, except for CopySign and Abs, which only change the sign bit.",
                        "Integers are converted to half-precision types only if exactly representable as float (larger ones are documented nowhere)."]
