import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "reduce.cc", parts=5)
    sc.validate(ctx, "P33", lines, "ReduceTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; every vector size, with junk beyond the vector.",
                        "Sums of float lanes use integers for which every order of summation is exact; minimum and maximum without not-a-number lanes; masked reductions with at least one active lane."]
