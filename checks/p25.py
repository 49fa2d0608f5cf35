import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "masks.cc", parts=2)
    sc.validate(ctx, "P25", lines, "MaskTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "All masks of vectors up to 6 lanes (8 in the thorough tier), structured and random masks beyond; every vector size incl. partial vectors with arbitrary data in unused upper lanes."]
