import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "masked.cc", parts=7)
    sc.validate(ctx, "P35", lines, "MaskedTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; every vector size; masked loads, gathers and reductions are decided under P26, P27 and P33.",
                        "MaskedAbs/MaskedAbsOr of floats (documented, but not offered by any x86 or portable target) are not exercised."]
