import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "widenmul.cc", parts=3)
    sc.validate(ctx, "P34", lines, "WidenMulTrace")
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; every vector size.",
                        "bf16: normal operands of moderate exponent; accumulation sequences use integers whose sums are exact in every order."]
