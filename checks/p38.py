import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "crypto.cc", parts=2, chunk=32)
    sc.validate(ctx, "P38", lines, "CryptoTrace")
    ctx.assumptions += ["x86 targets and EMU128 (the operations do not exist on SCALAR); vectors of 16 to 64 bytes.", "Timing (constant latency) is not observable at this level and not checked."]
