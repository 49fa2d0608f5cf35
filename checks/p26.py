import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "memory.cc", parts=2, chunk=32)
    sc.validate(ctx, "P26", lines, "MemTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only.", "Out-of-range accesses are detected with inaccessible pages directly before or after the addressed bytes, stray writes by comparing 24 neighbouring bytes."]
