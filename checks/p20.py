import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "random.cc", link=["-Wl,--wrap=malloc"])
    sc.validate(ctx, "P20", lines, "RandomTrace", specdirs=("algo", "simd"), key=lambda r, c, ts: r["op"])
    ctx.assumptions += ["The jump polynomials of the specification are the published ones (checked once to equal 2^128 and 2^192 steps)."]
