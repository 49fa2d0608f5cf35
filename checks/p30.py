import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "convert.cc", parts=4)
    sc.validate(ctx, "P30", lines, "ConvTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "Operands are the boundaries of both types (also negated, doubled, plus/minus one), random values and all 8-bit values; every vector size."]
