import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "gather.cc", parts=2, chunk=32)
    sc.validate(ctx, "P27", lines, "MemTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "Disabled lanes of gathers and scatters address inaccessible memory; interleaved accesses are flush with inaccessible pages on either side."]
