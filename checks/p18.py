import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "bitpack.cc", parts=5)
    sc.validate(ctx, "P18", lines, "BitPackTrace", specdirs=("algo", "simd"), key=lambda r, c, ts: "%s-%d" % (r["t"], r["bits"]))
    ctx.cov["widths"] = "1..8, 1..16, 1..32, 1..64"
