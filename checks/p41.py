import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "math.cc", parts=4, opt="-O1", chunk=16)
    sc.validate(ctx, "P41", lines, "MathTrace", specdirs=("math", "simd"), timeout=800,
                key=lambda r, c, ts: "sincos-cancellation-%s" % r["t"] if r["_bad"].startswith("TRUE") else "%s-%s" % (r["op"], r["t"]))
    ctx.assumptions += ["x86 and the portable EMU128/SCALAR targets only; default rounding mode; arguments within the documented ranges.",
                        "Atan2 has no documented accuracy: 8 units in the last place and the special values of C are required."]
