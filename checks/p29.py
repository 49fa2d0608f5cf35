import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "compress.cc", parts=2, chunk=32)
    sc.validate(ctx, "P29", lines, "CompressTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "All masks for up to 8 lanes; for more lanes every pattern of each group of 8 lanes."]
