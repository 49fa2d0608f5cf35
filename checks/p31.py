import simd_common as sc
BF16 = {"AVX3_SPR", "AVX3_ZEN4"}
def key(r, case, ts):
    if r["_bad"].startswith("TRUE") and set(ts) <= BF16: return "bf16-flush-subnormal-" + r["op"]
    return "%s-%s-%s" % (r["op"], r["t"], r["to"])
def check(ctx):
    lines = sc.observe(ctx, "convertf.cc", parts=6)
    sc.validate(ctx, "P31", lines, "FloatConvTrace", key=key)
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; default rounding mode.",
                        "Conversions of not-a-number to integers are not documented and accepted; f32 to bf16 may round or truncate (documented as unspecified)."]
