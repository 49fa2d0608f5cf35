import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "dot.cc", parts=3)
    sc.validate(ctx, "P21", lines, "DotMatTrace", specdirs=("algo",), key=lambda r, c, ts: "%s-%d" % (r["t"], r["as"]))
    ctx.assumptions += ["Operands are integers (times a power of two) with exactly representable sums; rounding of other sums is not specified."]
