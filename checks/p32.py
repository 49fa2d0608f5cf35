import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "float.cc", parts=9)
    sc.validate(ctx, "P32", lines, "FloatLanesTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; default rounding mode, denormals enabled.",
                        "Documented freedoms: Min/Max with a not-a-number operand, not-a-number payloads, fused or separate rounding of multiply-add, sign of zeros from Min/Max/Clamp; approximations are only checked to 2^-6."]
