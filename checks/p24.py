import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "bits.cc")
    sc.validate(ctx, "P24", lines, "BitTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "Every compile-time and run-time shift amount of every lane type; operands are boundary values and random (8-bit unary exhaustive)."]
