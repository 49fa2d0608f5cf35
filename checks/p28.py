import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "swizzle.cc", parts=6, chunk=32)
    sc.validate(ctx, "P28", lines, "SwizzleTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "Indices outside the documented range and lanes documented as unspecified are not checked."]
