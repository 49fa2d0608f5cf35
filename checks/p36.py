import simd_common as sc
UB = ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]   # undefined behaviour crashes the program
def check(ctx):
    lines = sc.observe(ctx, "scalar_int.cc", want=["SSE2", "AVX2"], opt="-O1", extra_flags=UB)
    # The portable versions for compilers without a 128-bit integer type
    lines2 = sc.observe(ctx, "scalar_int.cc", want=["SSE2"], opt="-O2", extra_flags=["-U__SIZEOF_INT128__"] + UB)
    have = {l for l, _ in lines}
    sc.validate(ctx, "P36", lines + [x for x in lines2 if x[0] not in have], "ScalarIntTrace")
    ctx.cov["configurations"] = "with and without a 128-bit integer type; undefined behaviour traps"
    ctx.assumptions += ["Divisors are not zero; DivCeil and RoundUpTo are called such that the sum of the arguments is representable (less one if unsigned)."]
